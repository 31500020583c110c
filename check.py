#!/usr/bin/env python3
"""Entry point of every check: check.py <property> | --replay FILE | ...

Exit 0: the property held on everything explored. Exit 1: a VIOLATION line was
printed. Anything else is an error of the machinery.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
  env = dict(os.environ)
  if env.get("VERIF_SIM_ENV") != "1":
    env["VERIF_SIM_ENV"] = "1"
    env.setdefault("PYTHONHASHSEED", "0")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["JAX_PLATFORMS"] = "cpu"
    env["TF_CPP_MIN_LOG_LEVEL"] = "3"
    env["XLA_FLAGS"] = ("--xla_cpu_multi_thread_eigen=false "
                        "--xla_backend_optimization_level=0 "
                        "--xla_force_host_platform_device_count=4")  # for the groups of C13
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    env.pop("PYTHONPATH", None)
    sys.stdout.flush()
    os.execve(PY, [PY, "-W", "ignore", os.path.join(HERE, "check.py")] +
              sys.argv[1:], env)
  sys.path.insert(0, HERE)
  os.chdir(HERE)
  from sim import runner  # pylint: disable=g-import-not-at-top
  sys.exit(runner.main(sys.argv[1:]))


if __name__ == "__main__":
  main()
