"""C11: the checkpointing example resumes from the newest complete checkpoint."""
import os
import pickle
import random
import shutil
import tempfile

import numpy as np

from sim import core
from sim import disk as disk_lib
from sim import load
from sim import stubs
from sim.props import common

QUICK, THOROUGH = 1500, 100000
RULE = ("a case is a training job of up to 14 steps that checkpoints every n "
        "steps and lives several times: each life ends by a kill or a power "
        "failure before, inside or after a chosen file operation or between "
        "two updates, or sees failing file operations (disk full once or from "
        "then on, quota, I/O error, short write), after which the job dies or "
        "calls update again. Directory listings come in a seeded random order; "
        "step numbers start small or around the widths where the zero padding "
        "of file names ends. The last life has no faults. Oracle: every life "
        "starts, resumes bit for bit the state the uninterrupted job had at "
        "some step, not an older one than the newest complete checkpoint (for "
        "a power failure: the newest complete when the last checkpoint was "
        "begun), and goes on exactly like the uninterrupted job. Non-trivial: "
        "at least one life ended early and a later one resumed.")
REAL = ["examples/transformer/train.py (CheckpointingUpdater; in some cases "
        "also Updater and the transformer)", "Haiku", "JAX", "pickle",
        "the file system of a scratch directory"]
STUB = ["optax (a small Adam)", "tensorflow and its datasets (a fixed token "
        "stream)", "in most cases the inner updater (NumPy arithmetic)",
        "the loss of unsynced data (modelled)"]
ASSUME = ["a power failure undoes directory operations only since the last "
          "checkpoint was begun, newest first (journalled file system)",
          "file data is on the disk after fsync and not before"]
KINDS = ("kill", "power", "kill", "power", "enospc", "eio", "full", "quota",
         "short")


def gen(seed, tier):
  rng = common.seeded(seed)
  real = rng.random() < 0.02
  n = rng.choice([1, 1, 2, 2, 3, 4, 5])
  steps = rng.randrange(2, 5 if real else 15)
  start = 0 if real else rng.choice(
      [0, 0, 0, 7, 96, 999_990, 9_999_996, 99_999_994])
  ops = []
  for _ in range(rng.randrange(1, 3 if real else 6)):
    life = {"steps": [], "retry": rng.random() < 0.4,
            "end": rng.choice(["kill", "power", "exit"]),
            "upto": rng.randrange(steps + 1)}
    if rng.random() < 0.8:
      for _ in range(rng.choice([1, 1, 2])):
        life["steps"].append({
            "op": rng.randrange(rng.choice([8, 30, 80])),
            "kind": rng.choice(KINDS), "late": rng.random() < 0.3,
            "frac": rng.choice([0, 0.1, 0.5, 0.9])})
    ops.append(life)
  return {"kind": "real" if real else "toy", "every": n, "n": steps,
          "start": start, "size": rng.choice([1, 10, 3000, 30000]),
          "ops": ops, "seed": rng.randrange(10**6), "deep": rng.random() < 0.3,
          "made": rng.choice([0, 0, 1])}


class Toy:
  """An updater whose every bit of state depends on all that was fed to it."""

  def __init__(self, case):
    self.case = case

  def init(self, rng, data):
    r = np.random.RandomState(int(rng[1]) * 7 + int(data["obs"].sum()))
    import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
    return {"step": np.array(self.case["start"]), "rng": np.array(rng),
            "opt_state": (jnp.zeros([3]), {"n": np.int32(0)}),
            "params": {"linear": {
                "w": r.randn(self.case["size"]).astype(np.float32),
                "b": jnp.asarray(r.randn(2), "float32")}}}

  def update(self, state, data):
    import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
    h = np.float32((int(data["obs"].sum()) * 31 + int(state["rng"][1])) % 1009)
    w = np.asarray(state["params"]["linear"]["w"])
    new = {"step": state["step"] + 1,
           "rng": np.array([state["rng"][0] + 1, state["rng"][1] * 3 + 1],
                           np.uint32),
           "opt_state": (jnp.asarray(np.asarray(state["opt_state"][0]) + h),
                         {"n": state["opt_state"][1]["n"] + np.int32(1)}),
           "params": {"linear": {
               "w": np.roll(w, 1) * np.float32(0.5) + h,
               "b": state["params"]["linear"]["b"] + h}}}
    return new, {"step": state["step"], "loss": h}


def flags():
  from absl import flags as absl_flags  # pylint: disable=g-import-not-at-top
  fl = absl_flags.FLAGS
  for name in ("batch_size", "sequence_length", "d_model", "num_heads",
               "num_layers", "dropout_rate", "learning_rate",
               "grad_clip_value", "checkpoint_dir"):
    if name in fl:
      delattr(fl, name)


def process(case):
  """A process starts: everything is loaded anew."""
  stubs.install_optax()
  stubs.install_tensorflow()
  if case["kind"] == "real":
    load.fresh()
  flags()
  return load.example("examples.transformer.train")


def inner(case, train):
  if case["kind"] != "real":
    return Toy(case)
  import functools  # pylint: disable=g-import-not-at-top
  import optax  # pylint: disable=g-import-not-at-top
  vocab = 7
  fwd = train.hk.transform(train.build_forward_fn(vocab, 64, 1, 1, 0.1))
  loss = functools.partial(train.lm_loss_fn, fwd.apply, vocab)
  opt = optax.chain(optax.clip_by_global_norm(0.25),
                    optax.adam(2e-4, b1=0.9, b2=0.99))
  return train.Updater(fwd.init, loss, opt)


def data_at(case, step):
  r = np.random.RandomState((case["seed"] * 13 + step) % (2**31))
  x = r.randint(0, 7, [2, 4])
  return {"obs": x[:, :-1], "target": x[:, 1:]}


def bits(x):
  import jax  # pylint: disable=g-import-not-at-top
  leaves, td = jax.tree_util.tree_flatten(x)
  out = [str(td)]
  for l in leaves:
    a = np.asarray(l)
    out.append((a.dtype.name, a.shape, a.tobytes()))
  return out


class Watch:
  """The inner updater, reporting when it is called."""

  def __init__(self, up, seen):
    self.up, self.seen = up, seen

  def init(self, rng, data):
    return self.up.init(rng, data)

  def update(self, state, data):
    self.seen(int(np.asarray(state["step"])))
    return self.up.update(state, data)


def run(case):
  res = core.Res()
  top = tempfile.mkdtemp(prefix="sim-c11-")
  try:
    simulate(case, res, top)
  finally:
    shutil.rmtree(top, ignore_errors=True)
  return res


def simulate(case, res, top):
  rng = np.array([0, case["seed"]], np.uint32)
  train = process(case)
  # The uninterrupted job.
  up = inner(case, train)
  s0, last = case["start"], case["start"] + case["n"]
  ref_state, ref_out = {}, {}
  st = up.init(rng, data_at(case, -1))
  for s in range(s0, last):
    ref_state[s] = bits(st)
    st, out = up.update(st, data_at(case, s))
    ref_out[s] = bits(out)
  ref_state[last] = bits(st)

  root = os.path.join(top, "disk")
  keep = os.path.join(top, "keep")
  os.mkdir(root)
  os.mkdir(keep)
  ckpt = os.path.join(root, "a", "b") if case["deep"] else os.path.join(
      root, "ckpt")
  if case["made"]:
    os.makedirs(ckpt)
  disk = disk_lib.Disk(root, keep, res.count)
  newest = safe = floor = s0
  attempts = [s0]
  lives = list(case["ops"]) + [{"steps": [], "end": "exit", "retry": False,
                                "upto": case["n"]}]
  log = []
  resumed = 0
  trouble = set()            # what could have damaged checkpoints so far
  for n, life in enumerate(lives):
    final = n == len(lives) - 1
    if n and (case["kind"] != "real" or n % 2):
      train = process(case)
      up = inner(case, train)
    disk.start(case["seed"] * 31 + n, life["steps"])
    where = "init"
    step = None

    def seen(s):
      nonlocal newest
      if s % case["every"] == 0:
        newest = max(newest, s)

    def start():
      job = train.CheckpointingUpdater(Watch(up, seen), ckpt, case["every"])
      state = job.init(rng, data_at(case, -1))
      r = int(np.asarray(state["step"]))
      log.append(["start", n, r])
      if not floor <= r <= max(attempts) or r not in ref_state:
        raise Wrong("resume", "life %d resumed at step %d; the newest complete "
                    "checkpoint was step %d" % (n, r, floor))
      if bits(state) != ref_state[r]:
        raise Wrong("state", "life %d: the state resumed at step %d is not the "
                    "one the job had then" % (n, r))
      return job, state, r
    try:
      with disk:
        try:
          job, state, r = start()
        except (disk_lib.Crash, disk_lib.Injected):
          raise
        except Exception as e:  # pylint: disable=broad-except
          cls = e.args[0] if isinstance(e, Wrong) else "cannot start"
          msg = e.args[1] if isinstance(e, Wrong) else (
              "life %d (files %s): %r" % (n, sorted(
                  os.path.relpath(p, root) for p in disk.files().values()), e))
          name = finding(disk, ckpt, ref_state, floor, trouble)
          if name is None:
            res.fail(cls, msg)
          elif res.known(name, cls, msg):
            floor = workaround(disk, ckpt, ref_state, s0)
            log.append(["known", n, name, floor])
            job, state, r = start()
          if res.violation:
            return
        if n and r > s0:
          resumed += 1
          res.count("resumed from a checkpoint")
        newest = r
        tries = 0
        step = r
        where = "update"
        while step < min(last, s0 + max(life["upto"], r - s0 + (
            1 if life["steps"] else 0))):
          if step % case["every"] == 0:
            disk.settle()
            safe = newest
            attempts.append(step)
          try:
            new, out = job.update(state, data_at(case, step))
          except OSError:
            trouble.add("write")
            if not life["retry"] or tries > 2:
              raise
            tries += 1
            res.count("retries after a failed write")
            continue
          if bits(out) != ref_out[step] or bits(new) != ref_state[step + 1]:
            res.fail("continue", "life %d: step %d does not go on as the "
                     "uninterrupted job did" % (n, step))
            return
          state = new
          step += 1
          res.steps += 1
        if life["end"] != "exit" and not final:
          disk.dead = life["end"]
          res.count("crash %s between updates" % life["end"])
        elif not final:
          res.count("restart after a clean exit")
      if final and step != last:
        res.fail("progress", "the last life stopped at step %s" % step)
        return
    except disk_lib.Crash:
      log.append(["crash", n, disk.dead, len(disk.log)])
    except Wrong as e:
      res.fail(*e.args)
      return
    except OSError as e:
      if final or not any(f["kind"] not in ("kill", "power", "short")
                          for f in life["steps"]):
        res.fail("cannot start" if where == "init" else "cannot go on",
                 "life %d, %s: %r" % (n, where, e))
        return
      trouble.add("write")
      res.count("restart after a failed write")
      log.append(["oserror", n])
    except Exception as e:  # pylint: disable=broad-except
      res.fail("cannot start" if where == "init" else "cannot go on",
               "life %d, %s (files %s): %r" % (
                   n, where, sorted(os.path.relpath(p, root) for p in
                                    disk.files().values()), e))
      return
    disk.reboot(case["seed"] * 17 + n)
    power = disk.dead == "power"
    if disk.dead:
      trouble.add(disk.dead)
    floor = safe if power else newest
    newest = floor
    if power:
      safe = floor
  res.nontrivial = resumed > 0
  res.sim_time = float(res.steps)
  res.sig = core.digest([log, case["every"], case["n"], case["start"]])
  res.digest = core.digest([log, case])


class Wrong(Exception):
  """(class, message)"""


def whole(disk, path, ref_state):
  """The step of the complete checkpoint in this file, or why it is none."""
  with disk.real_open(path, "rb") as f:
    data = f.read()
  try:
    state = pickle.loads(data)
    step = int(np.asarray(state["step"]))
    if bits(state) == ref_state.get(step):
      return step
    why = "other"
  except Exception:  # pylint: disable=broad-except
    why = "cut"
  return "torn" if (os.stat(path).st_ino, data) in disk.torn else why


def look(disk, ckpt, ref_state):
  names = sorted(disk.real["listdir"](ckpt)) if os.path.isdir(ckpt) else []
  have = {n: whole(disk, os.path.join(ckpt, n), ref_state) for n in names}
  best = max([s for s in have.values() if isinstance(s, int)], default=None)
  return have, best


def finding(disk, ckpt, ref_state, floor, trouble):
  """Which finding explains that the job did not start as it should."""
  have, best = look(disk, ckpt, ref_state)
  if "other" in have.values():
    return None
  if best is None or best < floor:
    # What was complete is gone, or destroyed by writing it once more.
    if "power" in trouble:
      return "unsynced-checkpoint"
    return "torn-checkpoint" if trouble and "cut" in have.values() else None
  if disk.opened is None or os.path.dirname(disk.opened) != ckpt:
    return None
  got = have.get(os.path.basename(disk.opened))
  if isinstance(got, int):
    # It is complete and it is old, and a newer complete one lay beside it.
    return "listing-order" if got < best else None
  return "torn-checkpoint" if trouble and got else None


def workaround(disk, ckpt, ref_state, s0):
  """What an operator would do: leave only the newest complete checkpoint."""
  have, best = look(disk, ckpt, ref_state)
  kept = False
  for n, s in have.items():
    if s == best and best is not None and not kept:
      kept = True
    else:
      disk.real["unlink"](os.path.join(ckpt, n))
  return s0 if best is None else best
