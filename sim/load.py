"""Loads Haiku from /repo's working tree, as often as wanted, in one process.

Loading again drops every haiku module and executes the source anew: all module
level state is new. That is the simulator's "process start". The code objects
are compiled once per process and instrumented for sys.monitoring, which is the
seam for scheduling (every line or instruction of Haiku is a preemption point)
and for faults (every call from Haiku into JAX can be made to fail).
"""
import gc
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import threading
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
HAIKU_DIR = os.path.join(REPO, "haiku") + os.sep

_codes = {}      # module name -> code object
_all_codes = []  # every code object of Haiku, nested ones included
_new_codes = []  # those not yet instrumented


def _walk(code):
  yield code
  for const in code.co_consts:
    if isinstance(const, types.CodeType):
      yield from _walk(const)


class _Loader(importlib.machinery.SourceFileLoader):

  def get_code(self, fullname):
    code = _codes.get(fullname)
    if code is None:
      path = self.get_filename(fullname)
      with open(path, "rb") as f:
        src = f.read()
      code = compile(src, path, "exec", dont_inherit=True)
      _codes[fullname] = code
      nested = list(_walk(code))
      _all_codes.extend(nested)
      _new_codes.extend(nested)
    return code


class _Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, fullname, path=None, target=None):
    if fullname.split(".")[0] not in ("haiku", "examples"):
      return None
    rel = os.path.join(REPO, *fullname.split("."))
    if os.path.isdir(rel):
      filename = os.path.join(rel, "__init__.py")
      if not os.path.exists(filename):
        if not fullname.startswith("examples"):
          return None
        spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
        spec.submodule_search_locations = [rel]
        return spec
      spec = importlib.machinery.ModuleSpec(
          fullname, _Loader(fullname, filename), origin=filename,
          is_package=True)
      spec.submodule_search_locations = [rel]
    else:
      filename = rel + ".py"
      if not os.path.exists(filename):
        return None
      spec = importlib.machinery.ModuleSpec(
          fullname, _Loader(fullname, filename), origin=filename)
    spec.has_location = True
    return spec


def install():
  if not any(isinstance(f, _Finder) for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder())


def purge():
  for name in [m for m in sys.modules
               if m.split(".")[0] in ("haiku", "examples")]:
    del sys.modules[name]


def fresh():
  """Starts Haiku anew and returns the package."""
  install()
  purge()
  import haiku  # pylint: disable=g-import-not-at-top
  assert haiku.__file__.startswith(HAIKU_DIR), haiku.__file__
  from sim import sched  # pylint: disable=g-import-not-at-top
  sched.instrument(_new_codes)
  _new_codes.clear()
  return haiku


def example(name):
  """Imports a module of the examples anew; Haiku must have been loaded."""
  for m in [m for m in sys.modules if m.split(".")[0] == "examples"]:
    del sys.modules[m]
  mod = importlib.import_module(name)
  assert mod.__file__.startswith(REPO + os.sep), mod.__file__
  from sim import sched  # pylint: disable=g-import-not-at-top
  sched.instrument(_new_codes)
  _new_codes.clear()
  return mod


def is_repo_code(code):
  return code.co_filename.startswith(REPO + os.sep)


def all_codes():
  return _all_codes
