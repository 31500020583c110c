"""C10: inspection tools leave no footprint."""
import copy
import functools
import re
import threading

import jax
import numpy as np

from sim import core
from sim import hist
from sim import lang
from sim import sched
from sim import zoo
from sim.lang import EXC_ANY, EXC_ENV
from sim.props import common

QUICK, THOROUGH = 550, 60000
RULE = ("a case is a set of 1-3 scheduled threads that run eval_summary, "
        "tabulate, to_dot and abstract_to_dot on generated programs and on "
        "library models, next to init and apply calls and to changes of "
        "profiler_name_scopes; faults of any type fire inside the inspected "
        "functions, and JAX calls of the tools fail. Non-trivial: a tool "
        "returned a report and another call ran. Oracles: every report (ids "
        "renumbered), result and exception equals the one of the same call made "
        "alone in a fresh process; a tool raises only what a plain run of the "
        "inspected function raises; the setting is what was set last, and is in "
        "force (by the name stacks of traced code) throughout.")
REAL, STUB = common.REAL, common.STUB
ASSUME = ["what a report says is judged by C24, not here"]
COLUMNS = ["module", "config", "owned_params", "input", "output",
           "params_size", "params_bytes"]
TOOLS = ["summary", "summary", "tabulate", "tabulate", "dot", "dot", "adot",
         "adot"]


def gen(seed, tier):
  rng = common.seeded(seed)
  k = rng.random()
  w = dict(try_=3, raise_=3, icept=3, creator=2, getter=2, scope=3, ifinit=2,
           spawn=0.4, call=9, mod=7)
  if rng.random() < 0.08:
    w.update(common.WRAP)
  nt = rng.choice([1, 2, 2, 2, 3])
  setter = rng.randrange(nt) if rng.random() < 0.4 else None
  # With name scopes a failing call is rolled back, and makes other JAX calls:
  # while another thread changes the setting nothing may fail.
  calm = setter is not None and nt > 1
  if calm:
    w.update(try_=0, raise_=0)
  case = {"tasks": [], "setup": [], "after": []}
  use_zoo = k > 0.8
  g, pis = common.programs(rng, w, {}, rng.choice([1, 1, 2]), keep_bad=0.05,
                           size=rng.choice([3, 4, 5, 6]) if nt > 1 else None)
  names = [rng.choice(zoo.LIGHT) for _ in range(rng.choice([1, 2]))]
  case["progs"] = g.progs
  if rng.random() < 0.5:
    case["setup"].append({"op": "set", "value": rng.random() < 0.75})
  for pi in pis:
    case["setup"].append(common.init_call(g, rng, pi, "p%d" % pi, 0, 0))
  if use_zoo:
    for n in names:
      case["setup"].append(common.zoo_call(rng, n, "init", "z" + n))
  if nt > 1:
    case["sched"], case["mode"] = common.spec(rng, 1500, reps=3, sites=15)
  focus = rng.choice(TOOLS) if nt > 1 and rng.random() < 0.5 else None
  if setter is not None:
    case["setter"] = "t%d" % setter
  for t in range(nt):
    calls = []
    for _ in range(rng.randrange(1, 4)):
      k = rng.random()
      if t == setter and k < 0.4:
        calls.append({"op": "set", "value": rng.random() < 0.5})
      elif k < 0.7:
        calls.append(
            tool_call(g, rng, pis, names if use_zoo else [], calm, focus))
      elif k < 0.8 and (setter is None or setter == t):
        pi = rng.choice(pis)
        calls.append({"op": "tool", "tool": "names", "prog": pi,
                      "slot": "p%d" % pi, "x": 3, "active": {}})
      elif use_zoo and rng.random() < 0.5:
        n = rng.choice(names)
        calls.append(common.zoo_call(rng, n, "apply", "z" + n, ["flat"],
                                     0 if calm else 0.1))
      else:
        pi = rng.choice(pis)
        if rng.random() < 0.3:
          calls.append(common.init_call(g, rng, pi, "q", 0))
        else:
          calls.append(common.history(g, rng, pi, 1, "p%d" % pi, 0,
                                      p_drop=0)[0])
    case["tasks"].append({"name": "t%d" % t, "calls": calls})
  pi = rng.choice(pis)
  case["after"] = [
      {"op": "tool", "tool": "names", "prog": pi, "slot": "p%d" % pi, "x": 3,
       "active": {}},
      tool_call(g, rng, pis, []),
      dict(common.history(g, rng, pi, 1, "p%d" % pi, 0, p_drop=0)[0],
           thread=False),
      {"op": "set", "value": False}]
  return case


def tool_call(g, rng, pis, names, calm=False, focus=None):
  c = {"op": "tool", "tool": focus or rng.choice(TOOLS),
       "x": rng.randrange(1000), "active": {},
       "given": rng.choice(["fn", "fn", "t", "init", "apply"])}
  if c["tool"] == "tabulate" and rng.random() < 0.6:
    c["how"] = {
        "columns": rng.choice([None, rng.sample(COLUMNS, rng.randrange(1, 5))]),
        "filters": rng.choice([None, [], ["has_params"], ["has_output"],
                               ["has_output", "has_params"]])}
    if rng.random() < 0.3:
      c["how"]["tabulate_kwargs"] = {
          "tablefmt": rng.choice(["grid", "plain", "simple"])}
  if names and rng.random() < 0.6:
    c["zoo"] = rng.choice(names)
    c["slot"] = "z" + c["zoo"]
    if rng.random() < 0.3:
      c["active"] = {rng.choice(["in", "end"]): rng.choice(EXC_ANY)}
  else:
    pi = rng.choice(pis)
    c["prog"] = pi
    c["slot"] = "p%d" % pi
    if rng.random() < 0.5:
      c["active"] = {s: ("InjError" if k in ("StopIteration", "GeneratorExit")
                         else k) for s, k in g.active(pi, 0.7).items()}
  if calm:
    c["active"] = {}
  elif rng.random() < 0.3:
    c["efault"] = [rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40]),
                   rng.choice(EXC_ENV)]
  if rng.random() < 0.1:
    c["thread"] = True
  if focus or rng.random() < 0.4:
    c["shared"] = True
  return c


def renumber(dot):
  """Object ids, and so the graph, renumbered in order of appearance."""
  seen = {}

  def sub(m):
    return "#%d" % seen.setdefault(m.group(0), len(seen))
  return re.sub(r"\d{7,}", sub, dot)


def no_address(x):
  if isinstance(x, str):
    return re.sub(r"0x[0-9a-f]+", "0x", x)
  if isinstance(x, list):
    return [no_address(v) for v in x]
  return x


def specs(d):
  return sorted("%s:%r" % (k, v) for k, v in d.items())


def row(r):
  d = r.module_details
  return [d.module.module_name, type(d.module).__name__, d.method_name,
          specs(d.params), specs(d.state), repr(r.args_spec),
          repr(r.kwargs_spec), repr(r.output_spec), repr(d.module),
          [[s.module.module_name, s.method_name, specs(s.params)]
           for s in r.call_stack]]


def op_set(world, call, slots, info):
  return {"previous": world.hk.experimental.profiler_name_scopes(call["value"])}


def op_tool(world, call, slots, info):
  hk = world.hk
  env = lang.Env(hk, call["active"], call["x"])
  info["env"] = env
  res = {}
  key = lang.key_of(7)
  slot = slots.get(call["slot"])
  if slot is None:
    return {"skip": True}
  if call.get("zoo"):
    t, inp = world.zoo.get(call["zoo"])
    x = inp(call["x"])
    apply = lambda p, s, x: t.apply(p, s, key, env, x, False)
    plain = lambda x: world.zoo.fns[call["zoo"]](env, x, False)
  else:
    pi = call["prog"]
    x = np.asarray(call["x"], np.int32)
    plain = lambda x: world.rt.fns[pi](env, x)
    apply = lambda p, s, x: world.rt.do_apply(pi, p, s, key, env, x)
  plane = sched.plane()
  ef = call.get("efault")
  e = hk.experimental
  tool = call["tool"]
  how = copy.deepcopy(call.get("how") or {})

  def given(f):
    if call.get("given", "fn") == "fn":
      return f
    tr = hk.transform_with_state(f)
    return {"t": tr, "init": tr.init, "apply": tr.apply}[call["given"]]
  def both(x):
    tr = hk.transform_with_state(plain)
    k = jax.random.PRNGKey(42)
    tr.apply(*tr.init(k, x), k, x)
  make = {"run both": lambda: functools.partial(jax.eval_shape, both),
          "run apply": lambda: functools.partial(jax.eval_shape, apply),
          "summary": lambda: e.eval_summary(given(plain)),
          "tabulate": lambda: e.tabulate(given(plain), **how), "dot": lambda: e.to_dot(apply),
          "adot": lambda: e.abstract_to_dot(apply)}
  if call.get("shared"):
    # All calls use one wrapper, which finds its call by its thread.
    world.tools = tools = world.__dict__.get("tools") or {}
    cur = world.cur = world.__dict__.get("cur") or threading.local()
    key2 = tool + repr(how)
    if key2 not in tools:
      tools[key2] = {
          "summary": lambda: e.eval_summary(lambda x: cur.plain(x)),
          "tabulate": lambda: e.tabulate(lambda x: cur.plain(x), **how),
          "dot": lambda: e.to_dot(lambda p, s, x: cur.apply(p, s, x)),
          "adot": lambda: e.abstract_to_dot(lambda p, s, x: cur.apply(p, s, x)),
      }[tool]()
    make = {tool: lambda: tools[key2]}
    cur.plain, cur.apply = plain, apply
  try:
    if ef:
      plane.arm(ef[0], env.make_exc(ef[1], "env"))
    try:
      if tool == "summary":
        res["rows"] = no_address(
            [row(r) for r in make[tool]()(x)])
      elif tool == "tabulate":
        res["table"] = no_address(make[tool]()(x))
      elif tool == "dot":
        res["dot"] = renumber(make[tool]()(slot[0], slot[1], x))
      elif tool == "adot":
        res["dot"] = renumber(make[tool]()(slot[0], slot[1], x))
      elif tool == "run both":
        make[tool]()(x)
      elif tool == "run apply":
        make[tool]()(slot[0], slot[1], x)
      elif tool == "names":
        jaxpr = jax.make_jaxpr(apply)(slot[0], slot[1], x)
        res["names"] = sorted({str(q.source_info.name_stack)
                               for q in jaxpr.jaxpr.eqns})
    finally:
      if ef:
        env.efired.append(plane.disarm())
  except sched._Abort:  # pylint: disable=protected-access
    raise
  except BaseException as ex:  # pylint: disable=broad-except
    res["raise"] = hist.classify(ex, env)
    info["exc"] = repr(ex)[:300]
  res["outside"] = hist.is_outside(hk)
  info["efired"] = list(env.efired)
  return res


OPS = {"set": op_set, "tool": op_tool}


def expected_settings(case):
  """The return values of profiler_name_scopes, in the order of the calls."""
  cur = False
  out = {}
  for i, c in enumerate(case["setup"]):
    if c["op"] == "set":
      out["setup", i] = cur
      cur = c["value"]
  for t in case["tasks"]:
    for i, c in enumerate(t["calls"]):
      if c["op"] == "set":
        out[t["name"], i] = cur
        cur = c["value"]
  for i, c in enumerate(case["after"]):
    if c["op"] == "set":
      out["after", i] = cur
      cur = c["value"]
  return out


def calm(case, r):
  """The order of mappings, and of what is done with them, depends on the setting.

  It is not compared while another thread changes the setting.
  """
  if case.get("setter") and case.get("sched"):
    r = dict(r)
    if "rows" in r:
      r["rows"] = sorted(r["rows"])
    for k in ("table", "dot"):
      if k in r:
        r[k] = "\n".join(sorted(re.sub("#[0-9]+", "#", r[k]).split("\n")))
  return r


def run(case):
  res = core.Res()
  alone = {}
  seen = []
  for one in core.schedules(case, res):
    outs, infos, setup, _ = core.run_case(one, res, OPS)
    seen.append([res.sig, outs, res.explicit])
    outs.setdefault("after", {})
    outs["setup"] = setup
    for (name, i), v in expected_settings(case).items():
      got = outs.get(name, {}).get(i)
      if got is None or got["previous"] != v:
        res.fail("setting", "%s call %d: profiler_name_scopes was %s, last set "
                 "to %s" % (name, i, got, v))
    judge(case, res, outs, alone)
  res.sig = common.sig_of([s[:2] for s in seen])
  res.digest = core.digest(seen)
  return res


def solo_of(case, t, i, cur):
  """The outcome of a call when it is made alone in a fresh process."""
  c = t["calls"][i]
  solo = {"progs": case["progs"], "setup": list(case["setup"]),
          "tasks": [{"name": "solo", "calls": []}]}
  if t["name"] == "after":
    sets = [q for u in case["tasks"] for q in u["calls"] if q["op"] == "set"]
    if sets:
      solo["setup"] = solo["setup"] + [sets[-1]]
  elif cur is not None:
    solo["setup"] = solo["setup"] + [{"op": "set", "value": cur}]
  # Calls of the same task that made the state this one starts from.
  prev = []
  if c["op"] in ("apply", "tool"):
    prev = [q for q in t["calls"][:i] if q["op"] == "apply"
            and q.get("commit") and q["slot"] == c["slot"]]
  solo["tasks"][0]["calls"] = prev + [dict(c, thread=False)]
  so, _, _, _ = core.run_case(solo, core.Res(), OPS)
  return so["solo"][len(prev)]


RUNS = {"summary": "run both", "tabulate": "run both", "dot": "run apply",
        "adot": "run apply"}


def failed_as_it_should(case, t, i, cur, got):
  """A tool fails if, and as, the inspected function fails."""
  c = t["calls"][i]
  if c.get("efault") or c["op"] != "tool" or c["tool"] not in RUNS:
    return True
  calls = list(t["calls"])
  calls[i] = {k: v for k, v in c.items() if k not in ("how", "shared")}
  calls[i]["tool"] = RUNS[c["tool"]]
  want = solo_of(case, dict(t, calls=calls), i, cur)
  return want.get("raise") == got.get("raise")


def judge(case, res, outs, alone):
  reports = 0
  for t in case["tasks"] + [{"name": "after", "calls": case["after"]}]:
    name = t["name"]
    cur = None
    for i, c in enumerate(t["calls"]):
      if res.violation is not None:
        break
      if c["op"] == "set":
        cur = c["value"]
        continue
      if (name, i) not in alone:
        alone[name, i] = solo_of(case, t, i, cur)
        if "raise" in alone[name, i]:
          res.count("failed reports compared with a plain run")
          if not failed_as_it_should(case, t, i, cur, alone[name, i]):
            res.fail("tool failed", "task %s call %d (%s) raises %s, the "
                     "function itself does not" % (
                         name, i, c.get("tool"), alone[name, i]["raise"]))
            break
      want = alone[name, i]
      got = outs.get(name, {}).get(i)
      if got is None:
        res.fail("missing", "task %s call %d did not finish" % (name, i))
      elif calm(case, got) != calm(case, want):
        res.fail("mismatch", "task %s call %d (%s): %s" % (
            name, i, c.get("tool", c["op"]),
            core.diff(got, want).replace("expected", "alone")))
      elif c["op"] == "tool" and "raise" not in got:
        reports += 1
        res.count("reports " + c["tool"])
  res.nontrivial = reports > 0 and len(outs) > 1
