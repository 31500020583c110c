"""C12: the IMPALA example delivers every trajectory once and shuts down."""
import os
import random

import numpy as np

from sim import core
from sim import load
from sim import sched
from sim import simthread
from sim import stubs
from sim.props import common

QUICK, THOROUGH = 700, 60000
RULE = ("a case runs one of the IMPALA programs (examples/impala's "
        "run_catch.main with its actors, transfer worker and learner; the "
        "Learner alone with producers that know of no stop signal; "
        "impala_lite.run) on the simulator's threads, queues and clock, with "
        "seeded batch sizes, numbers of actors, updates and unroll lengths, "
        "scheduling at every line or instruction of the example, and virtual "
        "delays: slow or stalled environments (longer than the queue time-"
        "outs), slow updates, slow loggers, an actor that dies. Oracles: the "
        "program ends and no thread remains; the requested number of updates "
        "happened; each batch consists of whole trajectories that were "
        "enqueued, none used twice, none skipped per actor, none overtaking "
        "one whose enqueueing ended before its own began; the parameters and "
        "the frame count served to actors belong together, are those after a "
        "whole number of updates and never go back; the steps an actor sends "
        "are contiguous. Non-trivial: at least one context switch and one "
        "update.")
REAL = ["examples/impala (learner, actor, run_catch, util; in some cases the "
        "agent, its network and the update)", "examples/impala_lite.py",
        "Haiku", "JAX", "the sources of threading and queue, executed on "
        "simulated locks"]
STUB = ["dm_env, rlax, bsuite, optax", "locks, thread starts, clocks",
        "jax.tree_multimap and jax.experimental.optimizers (absent from the "
        "installed JAX)", "in most cases the agent and the update"]
ASSUME = ["time advances only while every thread waits; a step of an "
          "environment takes time"]


def gen(seed, tier):
  rng = common.seeded(seed)
  k = rng.random()
  kind = "main" if k < 0.6 else "direct" if k < 0.92 else "lite"
  batch = rng.choice([1, 2, 2, 3])
  case = {"kind": kind, "batch": batch, "actors": rng.randrange(1, 5),
          "updates": rng.randrange(0, 7), "unroll": rng.randrange(1, 4),
          "episode": rng.randrange(1, 6), "seed": rng.randrange(10**6),
          "pace": rng.choice([0.05, 0.3, 1.0]), "slow": [], "real": kind == "main" and rng.random() < 0.03,
          "mode": rng.choice(["line", "line", "line+call", "instr"])}
  if kind == "lite":
    case["batch"] = 2
  for _ in range(rng.choice([0, 0, 1, 2, 4])):
    case["slow"].append([rng.choice(["env", "env", "env", "update", "log",
                                     "put"]),
                         rng.randrange(case["actors"]), rng.randrange(20),
                         rng.choice([0.5, 1.5, 3, 11, 25, 60]),
                         rng.randrange(1, 6)])
  if kind == "main" and case["actors"] > 1 and rng.random() < 0.15:
    case["dies"] = [rng.randrange(case["actors"]), rng.randrange(12)]
  spec, _ = common.spec(rng, 1500)
  case["sched"] = spec
  return case


class EnvError(Exception):
  pass


class Log:
  """What happened, in the order it happened."""

  def __init__(self, case, res):
    self.case, self.res = case, res
    self.clock = 0
    self.put = []        # [actor, number, begun, ended, trajectory]
    self.used = []       # batches passed to update
    self.pulled = {}     # task -> [(frames, version)]
    self.counts = {}
    self.versions = 0
    self.envs = 0

  def tick(self):
    self.clock += 1
    return self.clock

  def slow(self, what, who=0):
    n = self.counts[what, who] = self.counts.get((what, who), -1) + 1
    for w, a, at, dt, times in self.case["slow"]:
      if w == what and (a == who or what in ("update", "log")) and (
          at <= n < at + times):
        self.res.count("fault slow " + what)
        simthread.sleep(dt)
    return n


def make_env(log, case, TimeStep, StepType):

  class Spec:
    num_values = 2
    shape, dtype = (2, 2), np.dtype("float32")

  class Env:

    def __init__(self):
      self.id = log.envs - 1     # the first one is only asked for its spec
      log.envs += 1
      self.n = 0

    def action_spec(self):
      return Spec

    def observation_spec(self):
      return np.zeros([2, 2], np.float32)

    def _obs(self):
      return np.array([[self.id, self.n], [0, 0]], np.float32)

    def reset(self):
      return TimeStep(StepType.FIRST, None, None, self._obs())

    def step(self, action):
      del action
      simthread.sleep(case["pace"])
      log.slow("env", self.id)
      if case.get("dies") == [self.id, self.n]:
        log.res.count("fault actor dies")
        raise EnvError("injected")
      self.n += 1
      k = self.n % (case["episode"] + 1)
      if k == 0:
        return self.reset()
      t = StepType.LAST if k == case["episode"] else StepType.MID
      return TimeStep(t, float(self.n), 0.0 if t == StepType.LAST else 1.0,
                      self._obs())
  return Env


def toy_agent(agent_lib):

  class Agent:

    def __init__(self, num_actions, obs_spec, net):
      pass

    def initial_params(self, rng):
      return {"w": np.int32(0), "v": np.int32(0)}

    def initial_state(self, batch):
      return np.zeros([])

    def step(self, rng, params, timestep, state):
      sched.point("agent step")
      out = agent_lib.AgentOutput(
          np.array([params["w"], params["v"]]), np.float32(0), np.int32(0))
      return out, state + 1
  return Agent


def run_once(case):
  res = core.Res()
  # Executing the modules anew starts the process.
  sched.set_mode(0)
  load.fresh()
  stubs.install_optax()
  TimeStep, StepType = stubs.install_rl()
  mods = simthread.build()
  log = Log(case, res)
  Env = make_env(log, case, TimeStep, StepType)
  with simthread.Patched(mods):
    if case["kind"] == "lite":
      lite = load.example("examples.impala_lite")
    else:
      run_catch = load.example("examples.impala.run_catch")
      learner_lib, agent_lib = run_catch.learner_lib, run_catch.agent_lib
  sched.set_mode(sched.EVENT_SETS[case["mode"]])
  if case["kind"] == "lite":
    body = lite_body(case, log, lite, Env)
  else:
    watch(case, log, learner_lib.Learner)
    if not case["real"]:
      run_catch.agent_lib.Agent = toy_agent(agent_lib)
    else:
      for k in ("step", "initial_params", "initial_state"):
        setattr(agent_lib.Agent, k, atomic(getattr(agent_lib.Agent, k)))
    if case["kind"] == "main":
      run_catch.catch.Catch = Env
      run_catch.BATCH_SIZE = case["batch"]
      run_catch.NUM_ACTORS = case["actors"]
      run_catch.UNROLL_LENGTH = case["unroll"]
      run_catch.FRAMES_PER_ITER = case["batch"] * case["unroll"]
      run_catch.MAX_ENV_FRAMES = case["updates"] * run_catch.FRAMES_PER_ITER
      body = lambda: run_catch.main(None)
    else:
      body = direct_body(case, log, mods["threading"], learner_lib, agent_lib)
  sim = sched.Sim(case["sched"], max_steps=400_000)
  sim.spawn("main", body)
  sim.run()
  sched.set_mode(0)
  res.steps = sim.steps
  res.sim_time = sim.now
  res.points = getattr(sim.policy, "seen", None)
  res.sig = sim.sig
  res.explicit = sim.explicit()
  res.count("context switches", len(sim.switches))
  res.count("updates", log.versions)
  res.count("trajectories enqueued", len(log.put))
  res.digest = core.digest([res.explicit, log.clock, log.versions,
                            [p[:4] for p in log.put]])
  res.nontrivial = log.versions > 0 and len(sim.switches) > 0
  if sim.failure is not None and stuck_in_put(case, log, sim.failure):
    res.known("learner-hangs", "Deadlock", "after all %d updates: %s" % (
        log.versions, sim.failure))
    # What was delivered until then can be judged all the same.
  elif sim.failure is not None:
    res.fail(type(sim.failure).__name__, "after %d of %d updates: %s" % (
        log.versions, case["updates"], sim.failure))
    return res
  for t in sim.tasks:
    if t.error is not None:
      raise t.error
    if not t.done and sim.failure is None:
      res.fail("thread left", "%s did not end" % t.name)
  judge(case, log, res)
  return res


def wanted(case):
  if case["kind"] == "lite":
    return case["actors"] * case["updates"] // case["batch"]
  return case["updates"]


def stuck_in_put(case, log, failure):
  """All updates done, and everybody waits for room in a queue of the learner.

  Or waits for a thread that does, in join.
  """
  stacks = getattr(failure, "stacks", None)
  if not stacks or log.versions != wanted(case):
    return False
  puts = 0
  for stack in stacks.values():
    names = [(os.path.basename(f), n) for f, n in stack]
    here = [i for i, n in enumerate(names) if n in (
        ("learner.py", "enqueue_traj"), ("learner.py", "host_to_device_worker"))]
    if here and ("queue.py", "put") in names[:here[0]]:
      puts += 1
    elif ("threading.py", "join") not in names:
      return False
  return puts > 0


def watch(case, log, Learner):
  """Records what goes in and out of the learner."""
  enqueue, pull, update = (Learner.enqueue_traj, Learner.params_for_actor,
                           Learner.update)

  def enqueue_traj(self, traj):
    who = int(traj.timestep.observation[0, 0, 0])
    n = sum(p[0] == who for p in log.put)
    rec = [who, n, log.tick(), None, traj]
    log.put.append(rec)
    log.slow("put", who)
    enqueue(self, traj)
    rec[3] = log.tick()

  def params_for_actor(self):
    r = pull(self)
    frames, params = r
    log.pulled.setdefault(simthread.get_ident(), []).append(
        (frames, version_of(params, log)))
    return r

  def new_update(self, params, opt_state, batch):
    log.used.append(batch)
    log.slow("update")
    if case["real"]:
      params, opt_state, logs = atomic(update)(self, params, opt_state, batch)
    else:
      params = {k: v + np.int32(1) for k, v in params.items()}
      logs = {}
    log.versions += 1
    if case["real"]:
      seen = getattr(log, "seen", None)
      if seen is None:
        seen = log.seen = []
      seen.append(digest_of(params))
    return params, opt_state, logs
  Learner.enqueue_traj = enqueue_traj
  Learner.params_for_actor = params_for_actor
  Learner.update = new_update


def atomic(fn):
  """Compiled functions run without preemption.

  JAX holds locks of its own while it traces; a thread that waited for one
  would stop the simulator.
  """
  def wrapped(*args):
    t = getattr(sched._local, "task", None)  # pylint: disable=protected-access
    if t is None:
      return fn(*args)
    t.nopreempt += 1
    try:
      return fn(*args)
    finally:
      t.nopreempt -= 1
  return wrapped


def digest_of(params):
  import jax  # pylint: disable=g-import-not-at-top
  return core.digest([np.asarray(x).tobytes().hex() for x in
                      jax.tree_util.tree_leaves(params)])


def version_of(params, log):
  if not log.case["real"]:
    if params["w"] != params["v"]:
      log.res.fail("torn parameters", "an actor was given %r" % params)
    return [int(params["w"])]
  # Updates may leave the parameters as they were.
  d = digest_of(params)
  if log.versions == 0:
    log.first = d
  seen = [getattr(log, "first", d)] + getattr(log, "seen", [])
  return [i for i, s in enumerate(seen) if s == d]


def direct_body(case, log, threading, learner_lib, agent_lib):
  """A learner with producers, without the wiring of run_catch."""
  Agent = toy_agent(agent_lib)

  class Logger:

    def write(self, d):
      log.slow("log")

    def close(self):
      log.slow("log")

  def main():
    import optax  # pylint: disable=g-import-not-at-top
    from examples.impala import util  # pylint: disable=g-import-not-at-top
    learner = learner_lib.Learner(
        Agent(2, None, None), None, optax.sgd(0.1), case["batch"], 0.9,
        case["batch"] * case["unroll"], logger=Logger())
    need = case["updates"] * case["batch"]
    r = random.Random(case["seed"])
    extra = r.choice([0, 0, 1, 2, 5])

    def produce(a):
      n = need // case["actors"] + (a < need % case["actors"]) + extra
      for i in range(n):
        learner.params_for_actor()
        obs = np.full([case["unroll"] + 1, 2, 2], i, np.float32)
        obs[0, 0, 0] = a
        obs[:, 0, 1] = i * case["unroll"] + np.arange(case["unroll"] + 1)
        obs[:, 0, 0] = a
        z = np.zeros([case["unroll"] + 1])
        learner.enqueue_traj(util.Transition(
            timestep=learner_lib.dm_env.TimeStep(z, z, z, obs),
            agent_out=z, agent_state=z))
    ts = [threading.Thread(target=produce, args=(a,))
          for a in range(case["actors"])]
    for t in ts:
      t.start()
    learner.run(case["updates"])
    for t in ts:
      t.join()
  return main


def lite_body(case, log, lite, Env):

  class Agent:

    def __init__(self, net):
      pass

    def step(self, params, rng, timestep):
      sched.point("agent step")
      return np.int32(0), np.asarray(float(log.versions))

  class Learner:

    def __init__(self, agent, update):
      pass

    def update(self, params, opt_state, trajs):
      log.used.append(trajs)
      log.slow("update")
      log.versions += 1
      return params, opt_state
  lite.Agent, lite.Learner, lite.catch.Catch = Agent, Learner, Env
  actor = lite.run_actor

  def run_actor(agent, key, get_params, put, unroll, n):
    def enqueue(traj):
      who = int(traj.timestep.observation[0, 0, 0])
      k = sum(p[0] == who for p in log.put)
      rec = [who, k, log.tick(), None, traj]
      log.put.append(rec)
      log.slow("put", who)
      put(traj)
      rec[3] = log.tick()
    return actor(agent, key, get_params, enqueue, unroll, n)
  lite.run_actor = run_actor
  return lambda: lite.run(trajectories_per_actor=case["updates"],
                          num_actors=case["actors"],
                          unroll_len=case["unroll"])


def same(a, b):
  import jax  # pylint: disable=g-import-not-at-top
  a, b = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
  return len(a) == len(b) and all(
      np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))


def judge(case, log, res):
  import jax  # pylint: disable=g-import-not-at-top
  want = wanted(case)
  if log.versions != want:
    res.fail("updates", "%d updates instead of %d" % (log.versions, want))
  used = []
  for n, batch in enumerate(log.used):
    cols = np.asarray(batch.timestep.observation).shape[1]
    if cols != case["batch"]:
      res.fail("batch", "batch %d has %d trajectories" % (n, cols))
      return
    for c in range(cols):
      t = jax.tree_util.tree_map(lambda x: np.asarray(x)[:, c], batch)
      key = np.asarray(t.timestep.observation)[0, 0]
      hit = [p for p in log.put if same(p[4], t)]
      if not hit:
        res.fail("torn trajectory", "column %d of batch %d (starting with %s) "
                 "was never enqueued" % (c, n, key.tolist()))
        return
      if hit[0] in [u for u in used if u is hit[0]]:
        res.fail("used twice", "trajectory %s" % hit[0][:2])
        return
      used.append(hit[0])
  next_of = {}
  for i, u in enumerate(used):
    if u[1] != next_of.get(u[0], 0):
      res.fail("order", "trajectory %d of actor %d was used when number %d was "
               "due" % (u[1], u[0], next_of.get(u[0], 0)))
      return
    next_of[u[0]] = u[1] + 1
    for v in used[:i]:
      if u[3] is not None and u[3] < v[2]:
        res.fail("order", "%s was used before %s, which was enqueued earlier"
                 % (v[:2], u[:2]))
        return
  # Whoever was not used must not have come before one that was.
  ids = {id(u) for u in used}
  for p in log.put:
    if id(p) not in ids and p[3] is not None and any(
        p[3] < u[2] for u in used):
      res.fail("lost", "trajectory %s was enqueued and never used, later ones "
               "were" % p[:2])
      return
  # An actor's trajectories overlap in one step and are contiguous.
  last = {}
  for p in log.put:
    n = np.asarray(p[4].timestep.observation)[:, 0, 1].astype(int).tolist()
    if n != list(range(n[0], n[0] + case["unroll"] + 1)) or (
        n[0] != last.get(p[0], 0)):
      res.fail("steps", "actor %d sent the steps %s after step %s" % (
          p[0], n, last.get(p[0], 0)))
      return
    last[p[0]] = n[-1]
  per = case["batch"] * case["unroll"]
  for who, ps in log.pulled.items():
    for a, (frames, version) in enumerate(ps):
      if frames not in [v * per for v in version] or (a and frames < ps[a - 1][0]):
        res.fail("parameters", "an actor was given %s (frames, versions) with "
                 "%d frames per update" % (ps[max(0, a - 1):a + 1], per))
        return
  res.count("trajectories used", len(used))


def run(case):
  spec = core.planned(case, run_once)
  if spec is not case["sched"]:
    case = dict(case, sched=spec)
  return run_once(case)
