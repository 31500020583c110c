"""C07: inputs are never modified and returned mappings never change."""
import copy
import pickle

import jax
import numpy as np

from sim import core
from sim import hist
from sim import load
from sim import sched
from sim.props import common

QUICK, THOROUGH = 9000, 400000
RULE = ("a case is (a) a history of init and apply calls of a generated "
        "program, on one or several scheduled threads that share their inputs, "
        "with failing calls; while bodies run, and after the calls, the caller "
        "deletes, replaces and adds entries of its own dicts; or (b) a set of "
        "mappings obtained in different ways (returned by init/apply, mapped, "
        "unflattened, unpickled, returned from jit) that several scheduled "
        "threads read for the first time, read again, copy, pickle and try to "
        "modify. Non-trivial: a call returned, or at least two threads read the "
        "same mapping. Oracles: (a) the reference model for the results, and "
        "inputs and results compared with snapshots at the end; (b) the plain "
        "dict the mapping was made from, and the same read made alone.")
REAL, STUB = common.REAL, common.STUB
ASSUME = ["the caller's dicts are plain dicts; arrays are not modified in place"]


def gen(seed, tier):
  rng = common.seeded(seed)
  return gen_calls(rng) if rng.random() < 0.45 else gen_read(rng)


def run(case):
  return run_calls(case) if case["kind"] == "calls" else run_read(case)


# ------------------------------------------------------------------ (a) calls


def gen_calls(rng):
  w = dict(poke=9, sets=5, gets=5, spawn=0, nested=0.5, lift=0.7)
  if rng.random() < 0.1:
    w.update(common.WRAP)
  g, (pi,) = common.programs(rng, w)
  threads = rng.random() < 0.25
  case = {"kind": "calls", "progs": g.progs, "tasks": [],
          "setup": [common.init_call(g, rng, pi, 0, 0, 0)],
          "form": rng.choice(["dict", "dict", "mixed", "mutable", "flat"])}
  if threads:
    case["sched"], case["mode"] = common.spec(rng, 500)
  for t in range(rng.choice([2, 3]) if threads else 1):
    calls = []
    for _ in range(rng.randrange(1, 3) if threads else rng.randrange(2, 6)):
      c = common.history(g, rng, pi, 1, 0, 0.3, p_drop=0,
                         forms=["dict", "dict", "mixed", "mutable"])[0]
      c.pop("thread", None)
      k = rng.random()
      if k < 0.3:
        c["shared"] = True
        c["form"] = "flat"
      elif k < 0.9:
        c["pokes"] = [rng.randrange(1 << 20)
                      for _ in range(rng.randrange(1, 5))]
      if rng.random() < 0.15:
        c = common.init_call(g, rng, pi, "q", 0.3)
      calls.append(c)
    case["tasks"].append({"name": "t%d" % t, "calls": calls})
  return case


def freeze(x):
  """A snapshot of a caller side structure, down to the identity of leaves."""
  if type(x) is dict:
    return ["dict", [(k, freeze(v)) for k, v in x.items()]]
  if isinstance(x, np.ndarray):
    return ["array", id(x), x.tobytes()]
  return ["object", id(x)]


def disturb(t, n, state):
  """The caller changes one of its own dicts; n says how."""
  if type(t) is not dict:
    return
  kind, n = n % 6, n // 6
  bundles = sorted(b for b in t if type(t[b]) is dict)
  all_bundles = sorted(t)
  if kind == 0:
    t.clear()
  elif kind == 1 and all_bundles:
    del t[all_bundles[n % len(all_bundles)]]
  elif kind == 2:
    t["extra%d" % (n % 3)] = {"w": np.int32(-1), "c": np.int32(-2)}
  elif bundles:
    b = t[bundles[n % len(bundles)]]
    names = sorted(b)
    n //= 7
    if kind == 3 and names:
      b[names[n % len(names)]] = np.int32(-12345)
    elif kind == 4 and names:
      del b[names[n % len(names)]]
    else:
      b["zz%d" % (n % 3)] = np.int32(99)


def run_calls(case):
  res = core.Res()
  spec = core.planned(case, run_calls)
  sched.set_mode(core.modes(case))
  world = core.World(case["progs"])
  base = {}
  core.run_calls(world, case["setup"], base, lambda *a: None)
  shared = None
  if 0 in base:
    shared = tuple(hist.take_form(world.hk, t, case["form"]) for t in base[0])
  before = [freeze(t) for t in shared] if shared else None
  outs, infos = {}, {}
  kept = []  # (label, mapping, contents when it was returned)

  def body(t):
    o, n = outs.setdefault(t["name"], {}), infos.setdefault(t["name"], {})
    slots = dict(base)
    for i, call in enumerate(t["calls"]):
      label = "task %s call %d" % (t["name"], i)
      info = {}
      mine = []
      rng_before = None

      def inputs(env, params, state):
        if call.get("shared"):
          state = shared[1] if slots[0][1] is base[0][1] else state
          params = shared[0]
        pokes = list(call.get("pokes", ()))
        shadow = [freeze(params), freeze(state)]
        mine.append((params, state, shadow))

        def poke():
          if pokes:
            k = pokes.pop(0)
            res.count("caller changed its dict during a call")
            x = params if k % 2 else state
            mine_check(label)
            disturb(x, k // 2, not k % 2)
            mine[0] = (params, state, [freeze(params), freeze(state)])
        env.poke = poke if pokes else None
        return params, state

      def mine_check(label):
        for params, state, shadow in mine:
          for what, x, s in (("params", params, shadow[0]),
                             ("state", state, shadow[1])):
            if freeze(x) != s:
              res.fail("input", "%s: the %s passed in were modified" % (
                  label, what))
      info["inputs"] = inputs
      r = hist.exec_call(world.rt, call, slots, info)
      o[i], n[i] = r, info
      mine_check(label)
      if "returned" in info:
        for what, m in zip(("params", "state"), info["returned"]):
          if m is not None:
            kept.append((label + " " + what, m, None))
      # After the call the caller reuses its dicts for something else.
      for params, state, _ in mine:
        if not call.get("shared"):
          for x in (params, state):
            if type(x) is dict:
              for b in x.values():
                if type(b) is dict:
                  b.clear()
              x.clear()
      sched.point("between calls")
  if case.get("sched"):
    sim = sched.Sim(spec)
    for t in case["tasks"]:
      sim.spawn(t["name"], lambda t=t: body(t))
    sim.run()
    res.points = getattr(sim.policy, "seen", None)
    res.steps += sim.steps
    res.sig = sim.sig
    res.explicit = sim.explicit()
    if sim.failure is not None:
      res.fail(type(sim.failure).__name__, str(sim.failure))
    for t in sim.tasks:
      if t.error is not None:
        raise t.error
  else:
    for t in case["tasks"]:
      body(t)
  world.stop()
  if shared and [freeze(t) for t in shared] != before:
    res.fail("input", "shared params or state were modified")
  # What was returned must still be there.
  for t in case["tasks"]:
    for i, r in outs.get(t["name"], {}).items():
      ret = infos[t["name"]][i].get("returned")
      if ret is None:
        continue
      for what, m in zip(("params", "state"), ret):
        if m is not None and what in r:
          now = hist.norm_tree(m)
          if now != r[what]:
            res.fail("changed", "task %s call %d: the returned %s changed from "
                     "%s to %s" % (t["name"], i, what, core.short(r[what]),
                                   core.short(now)))
  for label, m, _ in kept:
    if isinstance(m, dict):
      if m:
        res.fail("mutable", "%s: a plain dict was returned" % label)
    else:
      e = modify(m)
      if e:
        res.fail("mutable", "%s: %s" % (label, e))
  if res.violation is None:
    core.judge_model(case, res, outs, infos)
  res.nontrivial = any("raise" not in r for o in outs.values()
                       for r in o.values())
  res.sig = common.sig_of(res.sig, outs, case["progs"])
  res.digest = core.digest([outs, res.explicit])
  return res


def modify(m, depth=0):
  """Tries to modify a mapping. Returns what succeeded."""
  was = list(m)
  k = was[0] if was else "k"
  acts = {
      "m[k] = v": lambda: m.__setitem__(k, 1),
      "m[new] = v": lambda: m.__setitem__("zzz", 1),
      "del m[k]": lambda: m.__delitem__(k),
      "m.pop(k)": lambda: m.pop(k),
      "m.popitem()": lambda: m.popitem(),
      "m.clear()": lambda: m.clear(),
      "m.update()": lambda: m.update({"zzz": 1}),
      "m.setdefault()": lambda: m.setdefault("zzz", 1),
  }
  for name, act in acts.items():
    try:
      act()
    except (TypeError, AttributeError):
      continue
    return "%s was possible" % name
  if list(m) != was:
    return "a failed modification changed the mapping"
  if depth == 0:
    for k in was:
      if hasattr(m[k], "keys"):
        e = modify(m[k], 1)
        if e:
          return "[%r]: %s" % (k, e)
  return None


# ---------------------------------------------------------------- (b) readers

KEYS = ["w", "b", "foo", "foo/bar", "~", "zeta", "a_1"]
ROUTES = ["ctor", "map", "map", "unflatten", "unflatten", "pickle", "nonleaf",
          "init", "apply", "jit", "vmapped", "nested"]
READS = ["len", "iter", "keys", "items", "values", "get", "getitem", "getattr",
         "contains", "eq", "eqother", "ne", "hash", "pickle", "deepcopy",
         "leaves", "structure", "map", "modify", "tomutable", "todict", "repr",
         "filter", "partition", "merge", "inner", "bool", "reversed", "size"]


def gen_read(rng):
  objs = []
  for _ in range(rng.randrange(1, 4)):
    content = {}
    for _ in range(rng.randrange(0, 4)):
      b = {}
      for _ in range(rng.randrange(0, 4)):
        b[rng.choice(KEYS)] = rng.choice(
            [rng.randrange(50), rng.randrange(50), rng.randrange(50), None,
             [rng.randrange(5), rng.randrange(5)],
             {"deep": rng.randrange(9)}])
      content[rng.choice(KEYS)] = b
    objs.append({"content": content, "route": rng.choice(ROUTES)})
  if len(objs) > 1 and rng.random() < 0.5:
    # Same structure, other leaves.
    o = copy.deepcopy(objs[0])
    for b in o["content"].values():
      for n, v in b.items():
        if isinstance(v, int):
          b[n] = v + 100
    objs.append(o)
  case = {"kind": "read", "objs": objs, "tasks": []}
  case["sched"], case["mode"] = common.spec(rng, 60)
  if case["mode"] != "instr" and rng.random() < 0.5:
    case["mode"] = "instr"
  for t in range(rng.choice([2, 2, 3])):
    ops = [[rng.choice(READS), rng.randrange(len(objs)), rng.randrange(1000)]
           for _ in range(rng.randrange(1, 6))]
    case["tasks"].append({"name": "t%d" % t, "ops": ops})
  return case


def build(hk, o):
  """Returns the mapping and the plain dict it has to show."""
  content = copy.deepcopy(o["content"])
  route = o["route"]
  ds = hk.data_structures
  m = ds.to_immutable_dict(copy.deepcopy(content))
  tu = jax.tree_util
  if route == "map":
    m = tu.tree_map(lambda v: v, m)
  elif route == "unflatten":
    leaves, st = tu.tree_flatten(m)
    m = tu.tree_unflatten(st, leaves)
  elif route == "pickle":
    m = pickle.loads(pickle.dumps(tu.tree_map(lambda v: v, m)))
  elif route == "nonleaf":
    m = tu.tree_map(lambda v: [v, {"n": v + 1}], m)
    content = plain_map(lambda v: [v, {"n": v + 1}], content)
  elif route in ("init", "apply"):
    def f():
      for b in sorted(content):
        for n in sorted(content[b]):
          with hk.experimental.name_scope("s"):
            hk.set_state(n, copy.deepcopy(content[b][n]))
    t = hk.transform_with_state(f)
    p, s = t.init(None)
    if route == "apply":
      _, s = t.apply(p, s, None)
    names = {}
    k = 0
    for b in sorted(content):
      for n in sorted(content[b]):
        names["s_%d" % k if k else "s"] = {n: content[b][n]}
        k += 1
    m, content = s, names
  elif route == "jit":
    m = jax.jit(lambda m: m)(m)
  elif route == "vmapped":
    m = tu.tree_map(lambda v: np.full((2,), v, np.int32), m)
    content = plain_map(lambda v: np.full((2,), v, np.int32), content)
  elif route == "nested":
    m = ds.to_immutable_dict({"outer": {"in": m}, "z": m})
    content = {"outer": {"in": content}, "z": content}
  return m, content


def plain_map(fn, x):
  if isinstance(x, dict):
    return {k: plain_map(fn, v) for k, v in x.items()}
  if isinstance(x, list):
    return [plain_map(fn, v) for v in x]
  return None if x is None else fn(x)


def plain(x):
  """JSON for whatever is inside a mapping."""
  if hasattr(x, "keys"):
    return {"map": sorted([str(k), plain(x[k])] for k in x.keys())}
  if isinstance(x, (list, tuple)):
    return [plain(v) for v in x]
  if x is None or isinstance(x, (int, str, bool)):
    return x
  return np.asarray(x).tolist()


def read(hk, m, content, op, n, other):
  """Performs one read. Returns (observation, content according to it)."""
  ks = sorted(content)
  k = ks[n % len(ks)] if ks else "missing"
  tu = jax.tree_util
  ds = hk.data_structures
  if op == "len":
    return len(m), len(content)
  if op == "bool":
    return bool(m), bool(content)
  if op == "iter":
    return list(m), None
  if op == "reversed":
    return list(reversed(list(m.keys()))), None
  if op == "keys":
    return [list(m.keys()), repr(m.keys()).split("(", 1)[-1]], None
  if op == "items":
    return [[a, plain(b)] for a, b in m.items()], None
  if op == "values":
    return [plain(v) for v in m.values()], None
  if op == "get":
    return [plain(m.get(k, -1)), m.get("missing", -1)], [
        plain(content.get(k, -1)), -1]
  if op == "getitem":
    try:
      return plain(m[k]), plain(content[k]) if k in content else "KeyError"
    except KeyError:
      return "KeyError", "KeyError" if k not in content else plain(content[k])
  if op == "getattr":
    try:
      return plain(getattr(m, k)), plain(content.get(k, "AttributeError"))
    except AttributeError:
      return "AttributeError", plain(content.get(k, "AttributeError"))
  if op == "contains":
    return [k in m, "missing" in m], [k in content, False]
  if op == "eq":
    try:
      return [m == copy.deepcopy(content), m == 5, m == None,  # pylint: disable=singleton-comparison
              m == {"missing": 1}], None
    except ValueError:
      return "ValueError", None
  if op == "eqother":
    try:
      return [m == other, other == m], None
    except ValueError:
      return "ValueError", None
  if op == "ne":
    try:
      return [m != other, m != {"missing": 2}], None
    except ValueError:
      return "ValueError", None
  if op == "hash":
    try:
      return hash(m) % 1000003, None
    except TypeError:
      return "TypeError", None
  if op == "pickle":
    c = pickle.loads(pickle.dumps(m, n % 5))
    return [list(c), plain(c)], None
  if op == "deepcopy":
    return plain(copy.deepcopy(m)), plain(content)
  if op == "leaves":
    return plain(tu.tree_leaves(m)), plain(tu.tree_leaves(content))
  if op == "structure":
    return str(tu.tree_structure(m)), None
  if op == "map":
    f = lambda v: np.asarray(v) + 1
    return plain(tu.tree_map(f, m)), plain(plain_map(f, content))
  if op == "modify":
    return modify(m) if m else None, None
  if op == "tomutable":
    d = ds.to_mutable_dict(m)
    r = plain(d)
    for b in d.values():
      if isinstance(b, dict):
        b.clear()
        b["junk"] = -1
    d.clear()
    d["junk"] = -2
    return r, plain(content)
  if op == "todict":
    d = dict(m)
    r = plain(d)
    d.clear()
    d["junk"] = -3
    return r, plain(content)
  if op == "repr":
    return str(m), None
  if op in ("filter", "partition", "merge"):
    if any(not hasattr(v, "keys") for v in m.values()):
      return None, None
    p = lambda mod, name, v: (len(mod) + len(name)) % 2 == 0
    if op == "filter":
      return plain(ds.filter(p, m)), None
    if op == "partition":
      a, b = ds.partition(p, m)
      return [plain(a), plain(b)], None
    return plain(ds.merge(m, m)), None
  if op == "inner":
    if k in m and hasattr(m[k], "keys"):
      return [[list(m[k]), [plain(v) for v in m[k].values()], len(m[k])]], None
    return None, None
  if op == "size":
    try:
      return ds.tree_size(m), None
    except (AttributeError, TypeError):
      return "error", None
  raise AssertionError(op)


def run_read(case):
  res = core.Res()
  spec = core.planned(case, run_read)
  hk = load.fresh()
  sched.set_mode(0)
  solo = {}
  objs = [build(hk, o) for o in case["objs"]]
  others = [build(hk, o)[0] for o in case["objs"]]
  for t in case["tasks"]:
    for op in t["ops"]:
      key = tuple(op)
      if key not in solo:
        m, content = build(hk, case["objs"][op[1]])
        r, want = read(hk, m, content, op[0], op[2], others[op[1]])
        if want is not None and r != want:
          res.fail("content", "%s of a mapping made by %s: %s, expected %s" % (
              op[0], case["objs"][op[1]]["route"], core.short(r),
              core.short(want)))
        if op[0] == "modify" and r:
          res.fail("mutable", r)
        solo[key] = (r, want)
  if res.violation is not None:
    res.sig = core.digest(case)
    return res
  sched.set_mode(sched.EVENT_SETS[case["mode"]])
  # Objects that several threads read for the first time together.
  log = {t["name"]: [] for t in case["tasks"]}

  def body(t):
    for op in t["ops"]:
      m, content = objs[op[1]]
      r, _ = read(hk, m, content, op[0], op[2], others[op[1]])
      log[t["name"]].append(r)
  sim = sched.Sim(spec)
  for t in case["tasks"]:
    sim.spawn(t["name"], lambda t=t: body(t))
  sim.run()
  sched.set_mode(0)
  res.points = getattr(sim.policy, "seen", None)
  res.steps = sim.steps
  res.explicit = sim.explicit()
  res.count("context switches", len(sim.switches))
  if sim.failure is not None:
    res.fail(type(sim.failure).__name__, str(sim.failure))
  for t in sim.tasks:
    if t.error is not None:
      res.fail("raised", "task %s: %r" % (t.name, t.error))
  for t in case["tasks"]:
    for op, r in zip(t["ops"], log[t["name"]]):
      res.count("reads")
      want = solo[tuple(op)][0]
      if r != want:
        res.fail("read", "task %s: %s of the mapping made by %s gave %s, alone "
                 "it gives %s" % (t["name"], op[0],
                                  case["objs"][op[1]]["route"],
                                  core.short(r), core.short(want)))
  # Afterwards everything is still the same.
  for i, o in enumerate(case["objs"]):
    m, content = objs[i]
    fm, _ = build(hk, o)
    for op in ("items", "leaves", "deepcopy", "structure", "hash", "repr"):
      a = read(hk, m, content, op, 0, others[i])[0]
      b = read(hk, fm, content, op, 0, others[i])[0]
      if a != b:
        res.fail("read", "after the run: %s of the mapping made by %s gave %s, "
                 "expected %s" % (op, o["route"], core.short(a), core.short(b)))
  res.nontrivial = any(
      sum(any(op[1] == i for op in t["ops"]) for t in case["tasks"]) > 1
      for i in range(len(objs)))
  res.sig = core.digest([sim.sig, case["objs"], [t["ops"] for t in case["tasks"]]])
  # Hash values differ between processes, as those of strings do.
  res.digest = core.digest([
      [[op, None if op[0] == "hash" else r]
       for t in case["tasks"] for op, r in zip(t["ops"], log[t["name"]])],
      res.explicit])
  return res
