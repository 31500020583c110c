"""Runs a case and judges every call by the reference model."""
from sim import core
from sim.props import common


def run(case):
  res = core.Res()
  outs, infos, _, _ = core.run_case(case, res)
  if res.violation is None:
    core.judge_model(case, res, outs, infos)
  finish(case, res, outs)
  return res


def finish(case, res, outs):
  rs = [r for o in outs.values() for r in o.values() if "skip" not in r]
  res.nontrivial = any("raise" not in r for r in rs) and (
      res.stats.get("statements", 0) > 5)
  res.count("restarts", sum(1 for t in case["tasks"] for c in t["calls"]
                            if c["op"] == "restart"))
  res.sig = common.sig_of(res.sig, outs, case["progs"])
  res.digest = core.digest([outs, res.explicit])
