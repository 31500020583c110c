"""Executes call histories on the real Haiku and on the model."""
import zlib

import jax
import jax.numpy as jnp
import numpy as np

from sim import lang
from sim import model as model_lib
from sim import sched


def norm_leaf(v):
  a = np.asarray(v)
  return [list(a.shape), a.reshape(-1).tolist()]


def norm_tree(t):
  return {b: {n: norm_entry(n, t[b][n]) for n in sorted(t[b])}
          for b in sorted(t) if len(t[b])}


def norm_entry(n, v):
  if n == lang.TREE:
    v, d = lang.unbox(v)
    return norm_leaf(v) + norm_leaf(d)
  return norm_leaf(v)


def model_entry(n, v):
  return model_leaf(v) + (model_leaf(1000) if n == lang.TREE else [])


def model_leaf(v):
  if isinstance(v, tuple):
    n = 1
    for d in v[1]:
      n *= d
    return [list(v[1]), [v[2]] * n]
  return [[], [v]]


def model_tree(t):
  return {b: {n: model_entry(n, t[b][n]) for n in sorted(t[b])}
          for b in sorted(t) if len(t[b])}


def classify(e, env):
  """Describes an exception that reached the caller."""
  for i in env.injected:
    if e is i:
      return ["inj", e.sim_site]
  if isinstance(e, sched.Deadlock):
    return ["deadlock"]
  if isinstance(e, Exception):
    seen = set()
    c = e
    while c is not None and id(c) not in seen:
      seen.add(id(c))
      if any(c is i for i in env.injected):
        return ["chained", c.sim_site]
      c = c.__cause__
    return ["hk"]
  return ["base", type(e).__name__]


def take_form(hk, tree, form):
  if form == "dict":
    return {b: dict(p) for b, p in tree.items()}
  if form == "mixed":
    return {b: (dict(p) if i % 2 else p)
            for i, (b, p) in enumerate(tree.items())}
  if form == "mutable":
    return hk.data_structures.to_mutable_dict(tree)
  return tree


def drop_entry(tree, which):
  """Removes one entry (chosen by number) from a two level mapping."""
  names = [(b, n) for b in sorted(tree) for n in sorted(tree[b])]
  if not names:
    return tree
  gone = names[which % len(names)]
  return {b: {n: v for n, v in tree[b].items() if (b, n) != gone}
          for b in tree}


def reshape_entry(tree, which, how, change):
  """Gives one entry another shape."""
  names = [(b, n) for b in sorted(tree) for n in sorted(tree[b])]
  if not names:
    return tree
  hit = names[which % len(names)]
  return {b: {n: change(v, how) if (b, n) == hit else v
              for n, v in tree[b].items()} for b in tree}


def other_shape(shape, how):
  """Another shape that is close to this one."""
  if how == 0 or not shape:
    return [(1,), (2,), (1, 1), (0,)][how % 4] if not shape else ()
  if how == 1:
    return shape + (1,)
  if how == 2:
    return (1,) + shape
  if how == 3 and len(shape) > 1 and shape[::-1] != shape:
    return shape[::-1]
  if how == 4:
    return (shape[0] + 1,) + shape[1:]
  if how == 5 and len(shape) > 1:
    return (shape[0] * shape[1],) + shape[2:]
  return shape[1:]


def change_shape(v, how):
  a = np.asarray(v)
  x = a.ravel()[0] if a.size else 0
  return np.full(other_shape(a.shape, how), x, a.dtype)


def model_change_shape(v, how):
  shape, x = (v[1], v[2]) if isinstance(v, tuple) else ((), v)
  if 0 in shape:
    x = 0
  return model_lib.val(other_shape(shape, how), x)


def exec_call(rt, call, slots, info=None):
  """Executes one call. Returns its observable outcome (JSON)."""
  hk = rt.hk
  env = lang.Env(hk, call.get("active", {}), call["x"], call.get("kbuf"))
  pi = call["prog"]
  rng = None if call["rng"] is None else lang.key_of(call["rng"])
  if rng is not None and call.get("rform"):
    rng = call["rng"] if call["rform"] == "int" else jnp.asarray(rng)
  x = np.int32(call["x"])
  plane = sched.plane()
  ef = call.get("efault")
  slot = slots.get(call["slot"])
  if call["op"] == "apply" and slot is None:
    return {"skip": True}
  res = {}
  bad = call.get("bad")
  if bad == "rng":
    rng = object()
  try:
    if ef:
      plane.arm(ef[0], env.make_exc(ef[1], "env"))
    try:
      if call["op"] == "init":
        if call.get("form") == "jit":
          params, state = jax.jit(
              lambda r, x: rt.do_init(pi, r, env, x))(rng, x)
        else:
          params, state = rt.do_init(pi, rng, env, x)
        out = None
      else:
        params, state = slot
        if call.get("drop") is not None:
          params = drop_entry(params, call["drop"])
        if call.get("sdrop") is not None:
          state = drop_entry(state, call["sdrop"])
        if call.get("reshape") is not None:
          params = reshape_entry(params, call["reshape"],
                                 call.get("how", 0), change_shape)
        form = call.get("form", "flat")
        params = take_form(hk, params, form)
        state = take_form(hk, state, form)
        if bad == "params":
          params = 5
        elif bad == "state":
          state = 5
        if info is not None and "inputs" in info:
          params, state = info["inputs"](env, params, state)
        if form == "jit":
          out, state = jax.jit(
              lambda p, s, r, x: rt.do_apply(pi, p, s, r, env, x))(
                  params, state, rng, x)
        else:
          out, state = rt.do_apply(pi, params, state, rng, env, x)
    finally:
      if ef and info is not None:
        info["callfault"] = plane.disarm()
  except sched._Abort:
    raise
  except BaseException as e:  # pylint: disable=broad-except
    res["raise"] = classify(e, env)
    if info is not None:
      info["exc"] = repr(e)[:300]
  else:
    try:
      if call["op"] == "init":
        res["params"] = norm_tree(params)
        res["state"] = norm_tree(state)
        slots[call["slot"]] = (params, state)
      else:
        if env.kb is not None:
          out, kb, kn = out
          res["keys"] = np.asarray(kb)[:min(int(kn), lang.KB)].tolist()
        res["out"] = norm_leaf(out)
        res["state"] = norm_tree(state)
        if call.get("commit"):
          slots[call["slot"]] = (slot[0], state)
    except sched._Abort:
      raise
    except Exception as e:  # pylint: disable=broad-except
      res["malformed"] = type(e).__name__
  # The thread must be outside every transform now.
  res["outside"] = is_outside(hk)
  if info is not None:
    if "raise" not in res and "malformed" not in res:
      info["returned"] = (params if call["op"] == "init" else None, state)
    info["efired"] = list(env.efired)
    info["env"] = env
    info["jaxcalls"] = plane.seen if ef else None
  return res


def leaf_digest(v):
  if isinstance(v, tuple):  # a state entry that is a pytree
    return "%s(%s)" % (type(v).__name__, ", ".join(leaf_digest(u) for u in v))
  a = np.asarray(v)
  return "%s%s:%08x" % (a.dtype, list(a.shape), zlib.crc32(a.tobytes()))


def tree_digest(t):
  return {b + ":" + n: leaf_digest(t[b][n]) for b in sorted(t)
          for n in sorted(t[b])}


def exec_zoo(zoo, call, slots, info=None):
  """Executes one call of a library model."""
  hk = zoo.hk
  env = lang.Env(hk, call.get("active", {}), 0)
  t, inp = zoo.get(call["zoo"])
  rng = None if call["rng"] is None else lang.key_of(call["rng"])
  x = inp(call["x"])
  tr = call.get("tr", True)
  plane = sched.plane()
  ef = call.get("efault")
  slot = slots.get(call["slot"])
  if call["op"] == "apply" and slot is None:
    return {"skip": True}
  res = {}
  form = call.get("form", "flat")
  try:
    if ef:
      plane.arm(ef[0], env.make_exc(ef[1], "env"))
    try:
      if call["op"] == "init":
        if form == "jit":
          params, state = jax.jit(lambda r, x: t.init(r, env, x, tr))(rng, x)
        else:
          params, state = t.init(rng, env, x, tr)
      else:
        params, state = slot
        params = take_form(hk, params, form)
        state = take_form(hk, state, form)
        if form == "jit":
          out, state = jax.jit(
              lambda p, s, r, x: t.apply(p, s, r, env, x, tr))(
                  params, state, rng, x)
        else:
          out, state = t.apply(params, state, rng, env, x, tr)
    finally:
      if ef:
        fired = plane.disarm()
        env.efired.append(fired)
  except sched._Abort:
    raise
  except BaseException as e:  # pylint: disable=broad-except
    res["raise"] = classify(e, env)
    if info is not None:
      info["exc"] = repr(e)[:300]
  else:
    try:
      if call["op"] == "init":
        res["params"] = tree_digest(params)
        res["state"] = tree_digest(state)
        slots[call["slot"]] = (params, state)
      else:
        res["out"] = [leaf_digest(v) for v in jax.tree_util.tree_leaves(out)]
        res["state"] = tree_digest(state)
        if call.get("commit"):
          slots[call["slot"]] = (slot[0], state)
    except sched._Abort:
      raise
    except Exception as e:  # pylint: disable=broad-except
      res["malformed"] = type(e).__name__
  res["outside"] = is_outside(hk)
  if info is not None:
    info["efired"] = list(env.efired)
    info["env"] = env
  return res


def is_outside(hk):
  ok = True
  for f in (hk.next_rng_key, hk.running_init,
            lambda: hk.get_state("c"), lambda: hk.Module("m")):
    try:
      f()
      ok = False
    except ValueError:
      pass
    except sched._Abort:
      raise
    except BaseException:  # pylint: disable=broad-except
      ok = False
  return ok


def model_call(progs, call, slots, efired):
  """What the model says about one call."""
  m = model_lib.Model(progs)
  env = model_lib.MEnv(call.get("active", {}), call["x"], efired)
  pi = call["prog"]
  rng = None if call["rng"] is None else (0, call["rng"])
  slot = slots.get(call["slot"])
  if call["op"] == "apply" and slot is None:
    return {"skip": True}
  res = {"outside": True}
  try:
    if call["op"] == "init":
      params, state = m.init(pi, rng, env, call["x"])
      res["params"] = model_tree(params)
      res["state"] = model_tree(state)
      slots[call["slot"]] = (params, state)
    else:
      params, state = slot
      if call.get("drop") is not None:
        params = drop_entry(params, call["drop"])
      if call.get("sdrop") is not None:
        state = drop_entry(state, call["sdrop"])
      if call.get("reshape") is not None:
        params = reshape_entry(params, call["reshape"], call.get("how", 0),
                               model_change_shape)
      out, state = m.apply(pi, params, state, rng, env, call["x"])
      res["out"] = model_leaf(out)
      res["state"] = model_tree(state)
      if call.get("commit"):
        slots[call["slot"]] = (slot[0], state)
  except model_lib.HkError:
    res["raise"] = ["hk"]
  except model_lib.Injected as e:
    res["raise"] = ["inj", e.site]
  except model_lib.Undefined:
    return None
  return res
