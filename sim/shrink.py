"""Minimises a failing case: fewer tasks, calls, statements, faults, switches."""
import copy
import time


def is_body(x):
  return isinstance(x, list) and all(
      isinstance(s, list) and s and isinstance(s[0], str) for s in x)


LISTS = ("tasks", "calls", "setup", "steps", "ops")


def lists(x, path=()):
  """Paths of all lists whose elements may be removed."""
  if isinstance(x, dict):
    for k in sorted(x):
      v = x[k]
      p = path + (k,)
      if k == "sched":
        if isinstance(v, dict) and v.get("kind") == "explicit":
          yield p + ("switches",), v["switches"]
        continue
      if k in LISTS and isinstance(v, list):
        yield p, v
        yield from lists(v, p)
      elif k == "active" and isinstance(v, dict):
        yield p, v
      elif isinstance(v, list) and is_body(v) and v:
        yield p, v
        yield from lists(v, p)
      elif isinstance(v, (dict, list)):
        yield from lists(v, p)
  elif isinstance(x, list):
    for i, v in enumerate(x):
      p = path + (i,)
      if isinstance(v, list) and v and is_body(v):
        yield p, v
        yield from lists(v, p)
      elif isinstance(v, (list, dict)):
        yield from lists(v, p)


def at(x, path):
  for k in path:
    x = x[k]
  return x


def hoists(x, path=()):
  """Statements that may be replaced by one of their bodies."""
  if isinstance(x, dict):
    for k in sorted(x):
      if k != "sched":
        yield from hoists(x[k], path + (k,))
  elif isinstance(x, list):
    if is_body(x) and x:
      for i, st in enumerate(x):
        for j, sub in enumerate(st):
          if is_body(sub) and sub:
            yield path, i, j
    for i, v in enumerate(x):
      if isinstance(v, (list, dict)):
        yield from hoists(v, path + (i,))


def minimise(case, fails, seconds=60.0):
  """fails(case) -> bool. Returns the smallest failing case found."""
  end = time.time() + seconds
  best = case
  tried = 0
  progress = True
  while progress and time.time() < end:
    progress = False
    # Remove chunks of lists, largest first.
    paths = [p for p, v in lists(best) if len(v)]
    for p in paths:
      try:
        n = len(at(best, p))
      except (KeyError, IndexError, TypeError):
        continue
      size = n
      while size >= 1 and time.time() < end:
        i = 0
        while True:
          try:
            cur = at(best, p)
          except (KeyError, IndexError, TypeError):
            break
          if i >= len(cur) or time.time() > end:
            break
          if p and p[-1] == "tasks" and len(cur) <= 1:
            break
          cand = copy.deepcopy(best)
          c = at(cand, p)
          if isinstance(c, dict):
            for k in sorted(c)[i:i + size]:
              del c[k]
          else:
            del c[i:i + size]
          tried += 1
          if safe(fails, cand):
            best = cand
            progress = True
          else:
            i += size
        size //= 2
    for path, i, j in list(hoists(best)):
      if time.time() > end:
        break
      try:
        body = at(best, path)
        sub = body[i][j]
        if not (is_body(body) and is_body(sub)):
          continue
      except (KeyError, IndexError, TypeError):
        continue
      cand = copy.deepcopy(best)
      b = at(cand, path)
      b[i:i + 1] = copy.deepcopy(sub)
      tried += 1
      if safe(fails, cand):
        best = cand
        progress = True
  return best, tried


def safe(fails, cand):
  try:
    return fails(cand)
  except Exception:  # pylint: disable=broad-except
    return False
