"""Seeded search over many simulated runs, spread over worker processes."""
import argparse
import importlib
import json
import os
import resource
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECK = os.path.join(HERE, "check.py")


def load_prop(pid):
  return importlib.import_module("sim.props." + pid.lower())


def seed_of(base, i):
  return base * 1_000_003 + i


def run_one(prop, case):
  """Runs a case; an exception the case does not provide for is a failure."""
  from sim import core, sched  # pylint: disable=g-import-not-at-top
  try:
    return prop.run(case)
  except (MemoryError, sched.HarnessError):
    raise
  except BaseException as e:  # pylint: disable=broad-except
    res = core.Res()
    last = traceback.extract_tb(e.__traceback__)[-1]
    res.fail("unexpected %s in %s" % (type(e).__name__, last.name), "%s\n%s" % (repr(e)[:300], "".join(
        traceback.format_tb(e.__traceback__)[-4:])))
    return res


def explicit_case(case, res):
  """The case with its schedule written out."""
  if res.explicit is not None:
    case = json.loads(json.dumps(case))
    case["sched"] = res.explicit
  return case


# ------------------------------------------------------------------- worker


def prepare():
  import logging  # pylint: disable=g-import-not-at-top
  logging.disable(logging.WARNING)
  from sim import load, sched  # pylint: disable=g-import-not-at-top
  sched.patch_locks()
  load.install()


def worker(args):
  """Runs the seeds start, start+stride, ... and writes a summary."""
  prepare()
  prop = load_prop(args.prop)
  out = {"runs": 0, "judged": 0, "stats": {}, "sigs": [], "nontrivial": 0,
         "steps": 0, "sim_time": 0.0, "samples": [], "violation": None,
         "next": None, "error": None, "digests": []}
  sigs = set()
  end = time.time() + args.wall
  i = args.start
  maxrss = 2_500_000
  while i < args.stop:
    if time.time() > end or (
        resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > maxrss):
      break
    seed = seed_of(args.seed, i)
    case = None
    try:
      case = prop.gen(seed, args.tier)
      res = run_one(prop, case)
    except BaseException:  # pylint: disable=broad-except
      out["error"] = {"seed": seed, "trace": traceback.format_exc()}
      break
    out["runs"] += 1
    out["judged"] += bool(res.judged)
    for k, v in res.stats.items():
      out["stats"][k] = out["stats"].get(k, 0) + v
    out["steps"] += res.steps
    out["sim_time"] += res.sim_time
    if res.nontrivial and res.judged:
      sigs.add(res.sig)
      if len(out["samples"]) < 2:
        out["samples"].append({"seed": seed, "case": shorten(case)})
    if args.digests:
      out["digests"].append([i, res.sig, res.steps, res.violation is None,
                             getattr(res, "digest", 0)])
    if res.violation is not None:
      out["violation"] = {"seed": seed, "class": res.violation[0],
                          "message": res.violation[1],
                          "case": explicit_case(case, res)}
      i += args.stride
      break
    i += args.stride
  out["next"] = i
  out["sigs"] = sorted(sigs)
  with open(args.out + ".tmp", "w") as f:
    json.dump(out, f)
  os.rename(args.out + ".tmp", args.out)
  sys.stdout.flush()
  os._exit(0)  # threads of an aborted run must not keep the process alive


def shorten(x, limit=1500):
  s = json.dumps(x)
  return x if len(s) < limit else s[:limit] + "..."


# --------------------------------------------------------------- supervisor


def spawn(extra):
  return subprocess.Popen(
      [sys.executable, "-W", "ignore", CHECK] + extra,
      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=HERE)


def search(pid, seed, tier, runs, wall, workers, digests=False):
  """Runs all seeds; returns the merged summary."""
  tmp = tempfile.mkdtemp(prefix="sim-%s-" % pid)
  total = {"runs": 0, "judged": 0, "stats": {}, "steps": 0, "sim_time": 0.0,
           "samples": [], "violations": [], "errors": [], "digests": []}
  sigs = set()
  start_time = time.time()
  live = []
  n = 0

  def launch(w, start):
    nonlocal n
    n += 1
    path = os.path.join(tmp, "w%d.json" % n)
    left = max(1.0, wall - (time.time() - start_time))
    cmd = ["--worker", "--prop", pid, "--seed", str(seed), "--tier", tier,
           "--start", str(start), "--stop", str(runs), "--stride",
           str(workers), "--out", path, "--wall", str(left)]
    if digests:
      cmd.append("--digests")
    live.append((w, spawn(cmd), path, time.time()))

  for w in range(min(workers, runs)):
    launch(w, w)
  try:
    while live:
      time.sleep(0.05)
      for item in list(live):
        w, p, path, t0 = item
        if p.poll() is None:
          if time.time() - start_time > wall + 240:
            p.kill()
            total["errors"].append({"trace": "worker hung"})
            live.remove(item)
          continue
        live.remove(item)
        err = p.stderr.read().decode(errors="replace")
        if not os.path.exists(path):
          total["errors"].append(
              {"trace": "worker died rc=%s: %s" % (p.returncode, err[-2000:])})
          continue
        with open(path) as f:
          o = json.load(f)
        os.unlink(path)
        for k in ("runs", "judged", "steps", "sim_time"):
          total[k] += o[k]
        for k, v in o["stats"].items():
          total["stats"][k] = total["stats"].get(k, 0) + v
        sigs.update(o["sigs"])
        total["digests"].extend(o["digests"])
        if len(total["samples"]) < 4:
          total["samples"].extend(o["samples"][:1])
        if o["error"]:
          total["errors"].append(o["error"])
        elif o["violation"]:
          total["violations"].append(o["violation"])
        elif o["next"] < runs and time.time() - start_time < wall:
          launch(w, o["next"])
      if total["violations"] or total["errors"]:
        # Let the others finish their current moment, then stop them.
        for _, p, _, _ in live:
          p.kill()
        for _, p, _, _ in live:
          p.wait()
        break
  finally:
    for _, p, _, _ in live:
      p.kill()
    import shutil  # pylint: disable=g-import-not-at-top
    shutil.rmtree(tmp, ignore_errors=True)
  total["distinct"] = len(sigs)
  total["wall"] = time.time() - start_time
  return total


def replay_file(pid, v, note=""):
  d = os.path.join(HERE, "replays")
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, "%s-%d.json" % (pid, v["seed"]))
  with open(path, "w") as f:
    json.dump({"property": pid, "seed": v["seed"], "class": v["class"],
               "message": v["message"], "case": v["case"], "note": note}, f,
              indent=1)
  return path


def sub(args, timeout):
  """Runs check.py in a fresh process, returns (rc, stdout)."""
  try:
    p = subprocess.run([sys.executable, "-W", "ignore", CHECK] + args,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       cwd=HERE, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
  except subprocess.TimeoutExpired:
    return -1, ""


def report(pid, v):
  """Minimises, confirms in a fresh process, prints the violation."""
  raw = replay_file(pid, v, "not minimised")
  rc = -1
  if v["class"] != "hash seed":
    rc, _ = sub(["--minimise", raw], 150)
  note = ""
  small = raw[:-5] + ".min.json"
  path = raw
  if rc == 0 and os.path.exists(small):
    rc, _ = sub(["--replay", small], 150)
    if rc == 1:
      path = small
      note = "minimised, reproduced in a fresh process"
  if path == raw:
    rc, _ = sub(["--replay", raw], 150)
    note = ("not minimised, reproduced in a fresh process" if rc == 1 else
            "observed once, not reproduced in a fresh process")
  print("%s: %s" % (v["class"], v["message"]))
  print("seed %d, %s" % (v["seed"], note))
  print("VIOLATION property=%s replay=%s" % (pid, path))


def do_minimise(path):
  prepare()
  from sim import shrink  # pylint: disable=g-import-not-at-top
  with open(path) as f:
    d = json.load(f)
  prop = load_prop(d["property"])

  def fails(case):
    r = run_one(prop, case)
    return r.violation is not None and r.violation[0] == d["class"]
  case = d["case"]
  if not fails(case):
    os._exit(3)
  best, tried = shrink.minimise(case, fails, 75.0)
  res = run_one(prop, best)
  d["case"] = best
  d["message"] = res.violation[1] if res.violation else d["message"]
  d["note"] = "minimised in %d steps" % tried
  with open(path[:-5] + ".min.json", "w") as f:
    json.dump(d, f, indent=1)
  os._exit(0)


def do_replay(path):
  with open(path) as f:
    d = json.load(f)
  if d["class"] == "hash seed":
    sys.exit(replay_cross(path, d))
  prepare()
  prop = load_prop(d["property"])
  res = run_one(prop, d["case"])
  if res.violation is not None:
    print("%s: %s" % res.violation)
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    sys.stdout.flush()
    os._exit(1)
  print("the case no longer fails")
  sys.stdout.flush()
  os._exit(0)


def known_findings(pid, stats):
  """Those listed for this property which the search met."""
  from sim import core  # pylint: disable=g-import-not-at-top
  out = []
  for name, (prop, what) in core.listed().items():
    n = stats.get("known finding " + name, 0)
    if prop == pid and n:
      out.append("KNOWN-FINDING: property=%s [%s] %s (met %d times)" % (
          pid, name, what, n))
  return out


def write_evidence(pid, prop, tier, seed, tot, wall, extra):
  runs = tot["runs"]
  stats = tot["stats"]
  known = known_findings(pid, stats)
  if known:
    extra = dict(extra, known_findings=known)
  faults = {k: v for k, v in sorted(stats.items()) if k.startswith("fault ")
            or k.startswith("failing") or k.startswith("crash")
            or k.startswith("restart") or k.startswith("io ")}
  cov = {
      "evaluations": runs,
      "distinct_nontrivial": tot["distinct"],
      "rule": prop.RULE,
      "samples": tot["samples"],
      "simulated_runs": runs,
      "runs_judged": tot["judged"],
      "seeds": "seed*1000003 + i, i < %d" % runs,
      "runs_per_hour": int(runs / max(wall, 1e-9) * 3600),
      "simulated_steps": tot["steps"],
      "simulated_seconds": tot["sim_time"],
      "faults_injected": faults,
      "counts": {k: v for k, v in sorted(stats.items()) if k not in faults},
      "distinct_measure": "executions with different schedule or history "
                          "signatures among the non-trivial ones",
      "real_components": prop.REAL,
      "stub_components": prop.STUB,
  }
  cov.update(extra)
  ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": prop.ASSUME, "wall_s": round(wall, 2),
        "violations": len(tot["violations"])}
  d = os.path.join(HERE, "evidence")
  os.makedirs(d, exist_ok=True)
  with open(os.path.join(d, pid + ".json"), "w") as f:
    json.dump(ev, f, indent=1)


def check(pid, tier, seed, runs=None, workers=None, wall=None):
  prop = load_prop(pid)
  quick = tier == "quick"
  runs = runs or (prop.QUICK if quick else prop.THOROUGH)
  wall = wall or (300.0 if quick else 3 * 3600.0)
  workers = workers or min(8, os.cpu_count() or 1)
  t0 = time.time()
  ncross = min(getattr(prop, "CROSS", 0), runs)
  tot = search(pid, seed, tier, runs, wall, workers, digests=ncross > 0)
  extra = {}
  if ncross and not tot["violations"] and not tot["errors"]:
    extra["runs_repeated_with_another_hash_seed"] = cross(
        pid, prop, seed, tier, ncross, wall, workers, tot)
  if (not quick and not tot["violations"] and not tot["errors"]):
    # Determinism: a sample of the seeds again, other worker count and hashing.
    extra["determinism"] = determinism(pid, seed, tier, min(runs, 200))
  write_evidence(pid, prop, tier, seed, tot, time.time() - t0, extra)
  for k in known_findings(pid, tot["stats"]):
    print(k)
  if tot["violations"]:
    v = min(tot["violations"], key=lambda v: v["seed"])
    report(pid, v)
    return 1
  if tot["errors"]:
    for e in tot["errors"]:
      print("HARNESS ERROR (seed %s)\n%s" % (e.get("seed"), e["trace"]))
    return 2
  if tot["runs"] < max(1, runs // 10):
    print("HARNESS ERROR only %d of %d runs in the time allowed"
          % (tot["runs"], runs))
    return 2
  if extra.get("determinism", {}).get("diverged"):
    print("HARNESS ERROR replay diverged: %r" % extra["determinism"])
    return 2
  print("%s held on %d simulated runs (%d judged, %d distinct non-trivial), "
        "%.1f s" % (pid, tot["runs"], tot["judged"], tot["distinct"],
                    time.time() - t0))
  return 0


def cross(pid, prop, seed, tier, n, wall, workers, tot):
  """Runs the first n seeds in processes that hash strings differently.

  What a call returns must not depend on it: a restarted process draws another
  hash seed.
  """
  old = os.environ.get("PYTHONHASHSEED")
  os.environ["PYTHONHASHSEED"] = "4242"
  try:
    t = search(pid, seed, tier, n, wall, workers, digests=True)
  finally:
    os.environ["PYTHONHASHSEED"] = old or "0"
  tot["errors"] += t["errors"]
  tot["violations"] += t["violations"]
  other = {d[0]: d[-1] for d in t["digests"]}
  for d in sorted(tot["digests"]):
    if d[0] in other and other[d[0]] != d[-1] and not tot["violations"]:
      s = seed_of(seed, d[0])
      tot["violations"].append({
          "seed": s, "class": "hash seed", "case": prop.gen(s, tier),
          "message": "the results depend on the string hash seed of the "
                     "process"})
  return len(other)


def do_digest(path):
  """Prints the digest of the results of a case."""
  prepare()
  with open(path) as f:
    d = json.load(f)
  res = run_one(load_prop(d["property"]), d["case"])
  print("DIGEST %s" % getattr(res, "digest", 0))
  sys.stdout.flush()
  os._exit(0)


def replay_cross(path, d):
  outs = []
  old = os.environ.get("PYTHONHASHSEED")
  for hs in ("0", "4242"):
    os.environ["PYTHONHASHSEED"] = hs
    outs.append(sub(["--digest", path], 300)[1].strip())
  os.environ["PYTHONHASHSEED"] = old or "0"
  if outs[0] != outs[1]:
    print("%s: %s" % (d["class"], d["message"]))
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1
  print("the case no longer fails")
  return 0


def determinism(pid, seed, tier, n):
  """Runs n seeds twice, with other worker counts and string hashing."""
  runs = []
  old = os.environ.get("PYTHONHASHSEED")
  for workers, hs in ((8, "0"), (3, "12345")):
    os.environ["PYTHONHASHSEED"] = hs
    t = search(pid, seed, tier, n, 1800, workers, digests=True)
    runs.append({d[0]: d[1:] for d in t["digests"]})
  os.environ["PYTHONHASHSEED"] = old or "0"
  common = sorted(set(runs[0]) & set(runs[1]))
  bad = [i for i in common if runs[0][i] != runs[1][i]]
  return {"seeds_run_twice": len(common), "diverged": len(bad),
          "examples": bad[:5]}


def main(argv):
  p = argparse.ArgumentParser()
  p.add_argument("property", nargs="?")
  p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
  p.add_argument("--runs", type=int)
  p.add_argument("--workers", type=int)
  p.add_argument("--wall", type=float)
  p.add_argument("--replay")
  p.add_argument("--minimise")
  p.add_argument("--digest")
  p.add_argument("--determinism", type=int)
  p.add_argument("--worker", action="store_true")
  p.add_argument("--prop")
  p.add_argument("--start", type=int)
  p.add_argument("--stop", type=int)
  p.add_argument("--stride", type=int)
  p.add_argument("--out")
  p.add_argument("--digests", action="store_true")
  p.add_argument("--setup", action="store_true")
  args = p.parse_args(argv)
  if args.setup:  # nothing to build: every check loads /repo's working tree
    prepare()
    from sim import load  # pylint: disable=g-import-not-at-top
    load.fresh()
    print("ready")
    return 0
  if args.worker:
    return worker(args)
  if args.minimise:
    return do_minimise(args.minimise)
  if args.digest:
    return do_digest(args.digest)
  if args.replay:
    return do_replay(args.replay)
  if args.determinism:
    r = determinism(args.property, args.seed, args.tier, args.determinism)
    print(json.dumps(r))
    return 2 if r["diverged"] else 0
  return check(args.property, args.tier, args.seed, args.runs, args.workers,
               args.wall)
