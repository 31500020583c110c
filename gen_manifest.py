"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {
    "C01": "Seeded search over schedules: real threads of real Haiku code, one baton, preemption at lines, calls or bytecode instructions; every call must give what it gives alone and what the reference model says. Trusts the model, JAX and CPython; code inside JAX is not preempted.",
    "C02": "Seeded search over failure points and call histories: every later call must give what it gives in a fresh process that never saw the failed calls, and what the model says.",
    "C03": "Seeded search over programs and caught failures against an executable reference model.",
    "C04": "Seeded search over wrapped programs, nestings and failures inside them against a reference model that runs them as plain Python.",
    "C05": "Seeded search over request histories, failing splits and schedules; exact keys from the model and pairwise distinctness.",
    "C06": "Seeded search over crash points of simulated training jobs, for user programs and for the library's modules; differential against the uninterrupted run in the same simulator.",
    "C07": "Seeded search over schedules of threads reading lazily built mappings, and over histories of caller-side mutation; compared with plain dicts.",
    "C08": "Seeded search over programs, histories with failures, threads and restarts against the model's names.",
    "C09": "Seeded search over call histories with failures against a ledger model.",
    "C10": "Seeded search over schedules and failures of the inspection tools next to other calls; each result must equal the one of the tool run alone in a fresh process.",
    "C11": "Seeded search over crash points, lost and torn writes, I/O errors and listing orders on a simulated filesystem.",
    "C12": "Seeded search over schedules of actors, transfer worker and learner with simulated queues, clocks and timeouts.",
    "C13": "Seeded search over histories of updates, evaluations, failures and restarts against recurrences in float64 numpy.",
}
NA = {
    "C20": "A pure function of its arguments: no schedule, clock, I/O, crash or other party for the result to depend on, so simulation has nothing to vary; this needs numerical oracles over inputs.",
    "C21": "Initialisers are pure functions of key, shape and dtype; deciding their distribution is a statistical question over inputs, no schedule or fault affects it.",
    "C22": "Pure functions over two-level mappings; no concurrency, time, I/O or fault.",
    "C23": "Equivalence of two pure computations over inputs; nothing a simulated schedule or fault could change.",
    "C24": "What a report says is a pure function of the inspected function; only its independence of other activity (C10) depends on schedules and faults.",
    "C25": "Argument validation is a pure function of the arguments; no schedule, crash or fault is involved.",
}
checks = []
for pid in sorted(NOTE):
  if os.path.exists(os.path.join(HERE, "sim/props/%s.py" % pid.lower())):
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "technique": "deterministic simulation with fault injection (seeded search)",
        "level": "exploration",
        "level_note": NOTE[pid]})
na = [{"property": k, "reason": v} for k, v in sorted(NA.items())]
for pid in sorted(NOTE):
  if pid not in {c["property"] for c in checks}:
    na.append({"property": pid, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: the seams are sys.monitoring events of Haiku code, module reloading and patched lock/queue/file primitives."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
  json.dump(m, f, indent=1)
  f.write("\n")
