"""A disk on which everything may fail, laid over a real scratch directory.

While a Disk is active, every file operation below its root goes through it: the
operations are counted, and a plan says what happens at which of them. What is
in Python's buffers is lost when the process dies; what was not synced is lost
or torn when the power fails, and the most recent directory operations may be
undone. Directory listings come in a seeded random order. Paths outside the
root are passed on untouched.
"""
import builtins
import errno
import io
import os
import random


class Crash(BaseException):
  """The simulated process has died here."""


class Injected(OSError):
  """A file operation was made to fail."""


class _Raw(io.RawIOBase):
  """A file opened for writing."""

  def __init__(self, disk, path, mode, fd):
    super().__init__()
    self._disk, self._fd, self.name, self.mode = disk, fd, path, mode
    self._dead = False

  def fileno(self):
    return self._fd

  def writable(self):
    return True

  def readable(self):
    return "+" in self.mode

  def seekable(self):
    return True

  def readinto(self, b):
    data = os.read(self._fd, len(b))
    b[:len(data)] = data
    return len(data)

  def seek(self, pos, whence=0):
    return os.lseek(self._fd, pos, whence)

  def truncate(self, size=None):
    if self._disk.dead:
      return 0
    self._disk.op("truncate", lambda f: os.ftruncate(
        self._fd, self.tell() if size is None else size))
    return size

  def write(self, b):
    if self._disk.dead:
      return len(b)
    b = bytes(b)
    return self._disk.write(self._fd, b)

  def close(self):
    if not self.closed:
      try:
        super().close()
        if not self._disk.dead:
          self._disk.op("close", lambda f: None, fails=("eio",))
      finally:
        self.kill()

  def kill(self):
    if not self._dead:
      self._dead = True
      self._disk.real["close"](self._fd)


ERR = {"enospc": errno.ENOSPC, "eio": errno.EIO, "full": errno.ENOSPC,
       "quota": errno.EDQUOT}


class Disk:
  """The disk below root, as seen by one life of a process."""

  def __init__(self, root, keep, count):
    self.root = os.path.realpath(root)
    self.keep = keep          # a directory for what may have to be restored
    self.count = count
    self.real = {n: getattr(os, n) for n in NAMES}
    self.real_open = builtins.open
    self.synced = {}          # inode -> what is safely on the disk
    self.undo = []            # of the directory operations not yet safe
    self.n_keep = 0
    self.torn = set()         # files damaged by power failures
    self.ops = 0
    self.start(0, [])

  def start(self, seed, plan):
    """A process starts."""
    self.rng = random.Random(seed)
    self.plan = {f["op"]: f for f in plan}
    self.full = False
    self.dead = None
    self.ops = 0
    self.log = []
    self.raws = []
    self.opened = None        # the file last opened for reading

  def inside(self, path):
    if isinstance(path, int) or path is None:
      return False
    try:
      p = os.path.abspath(os.fspath(path))
    except TypeError:
      return False
    if isinstance(p, bytes):
      p = os.fsdecode(p)
    return p == self.root or p.startswith(self.root + os.sep)

  # ------------------------------------------------------------- operations

  def die(self, how):
    self.dead = how
    self.log.append("died: " + how)
    self.count("crash " + how)
    raise Crash(how)

  def op(self, what, do, fails=("enospc", "eio", "full", "quota")):
    """One operation: something may happen before, instead of or after it."""
    if self.dead:
      raise Crash(self.dead)
    f = self.plan.get(self.ops)
    self.ops += 1
    self.log.append(what)
    self.count("io operations")
    kind = f["kind"] if f else None
    if kind in ("kill", "power") and not f.get("late"):
      self.count("crash in " + what)
      if what == "write" and f["frac"]:
        do(f["frac"])
      self.die(kind)
    if kind in ("enospc", "eio", "full", "quota", "short") or self.full:
      if what == "write" and kind == "short":
        self.count("fault short write")
        return do(f["frac"])
      if kind == "full":
        self.full = True
      k = kind if kind in fails else "full" if self.full else None
      if k in fails:
        self.count("fault %s in %s" % (k, what))
        if what == "write" and f and f["frac"]:
          do(f["frac"])
        raise Injected(ERR[k], os.strerror(ERR[k]))
    r = do(1.0)
    if kind in ("kill", "power"):
      self.count("crash after " + what)
      self.die(kind)
    return r

  def write(self, fd, b):
    def do(frac):
      n = len(b) if frac == 1.0 else min(len(b), max(1, int(len(b) * frac)))
      done = 0
      while done < n:
        done += self.real["write"](fd, b[done:n])
      return n
    return self.op("write", do)

  def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
           newline=None, closefd=True, opener=None):
    if not self.inside(file):
      return self.real_open(file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    if self.dead:
      raise Crash(self.dead)
    path = os.path.abspath(os.fspath(file))
    if not any(c in mode for c in "wax+"):
      self.opened = path
      return self.real_open(file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    flags = os.O_RDWR if "+" in mode else os.O_WRONLY
    flags |= (os.O_CREAT | os.O_TRUNC if "w" in mode else
              os.O_CREAT | os.O_APPEND if "a" in mode else
              os.O_CREAT | os.O_EXCL if "x" in mode else 0)
    if opener is not None:
      fd = opener(path, flags)
    else:
      fd = self.os_open(path, flags, 0o666)
    raw = _Raw(self, path, mode, fd)
    self.raws.append(raw)
    if buffering == 0:
      return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw, size)
    if "b" in mode:
      return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)

  def backup(self, path):
    """Keeps the file at path for the undo of what is about to happen."""
    if not os.path.lexists(path) or os.path.isdir(path):
      return None
    self.n_keep += 1
    b = os.path.join(self.keep, str(self.n_keep))
    self.real["link"](path, b)
    return b

  def restore(self, backup, path):
    if backup is None:
      if os.path.lexists(path):
        self.real["unlink"](path)
    else:
      self.real["replace"](backup, path)

  def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
    if not self.inside(path) or not flags & (os.O_WRONLY | os.O_RDWR |
                                             os.O_CREAT | os.O_TRUNC):
      if self.dead and self.inside(path):
        raise Crash(self.dead)
      return self.real["open"](path, flags, mode, dir_fd=dir_fd)
    path = os.path.abspath(path)
    new = not os.path.lexists(path)

    def do(_):
      fd = self.real["open"](path, flags, mode)
      if new:
        self.undo.append(lambda: self.restore(None, path))
      return fd
    return self.op("create" if new else "open", do)

  def os_write(self, fd, b):
    return self.write(fd, bytes(b)) if self.inside(self.where(fd)) else (
        self.real["write"](fd, b))

  def where(self, fd):
    try:
      return self.real["readlink"]("/proc/self/fd/%d" % fd)
    except OSError:
      return None

  def os_fsync(self, fd):
    if not isinstance(fd, int):
      fd = fd.fileno()
    p = self.where(fd)
    if p is None or not self.inside(p):
      return self.real["fsync"](fd)

    def do(_):
      st = os.fstat(fd)
      if os.path.isdir(p):
        self.undo.clear()
      else:
        self.synced[st.st_ino] = self.content(st.st_ino)
    return self.op("fsync", do)

  def os_rename(self, src, dst, **kw):
    if not self.inside(dst) and not self.inside(src):
      return self.real["rename"](src, dst, **kw)
    src, dst = os.path.abspath(src), os.path.abspath(dst)

    def do(_):
      b = self.backup(dst)
      self.real["rename"](src, dst)

      def undo():
        self.real["rename"](dst, src)
        if b:
          self.restore(b, dst)
      self.undo.append(undo)
    return self.op("rename", do)

  def os_unlink(self, path, **kw):
    if not self.inside(path):
      return self.real["unlink"](path, **kw)
    path = os.path.abspath(path)

    def do(_):
      b = self.backup(path)
      self.real["unlink"](path)
      self.undo.append(lambda: self.restore(b, path))
    return self.op("unlink", do, fails=("eio",))

  def os_link(self, src, dst, **kw):
    if not self.inside(dst):
      return self.real["link"](src, dst, **kw)

    def do(_):
      self.real["link"](src, dst)
      self.undo.append(lambda: self.restore(None, dst))
    return self.op("link", do)

  def os_mkdir(self, path, mode=0o777, **kw):
    if not self.inside(path):
      return self.real["mkdir"](path, mode, **kw)
    path = os.path.abspath(path)

    def do(_):
      self.real["mkdir"](path, mode)
      self.undo.append(lambda: self.real["rmdir"](path))
    return self.op("mkdir", do)

  def os_listdir(self, path="."):
    r = self.real["listdir"](path)
    if self.inside(path):
      if self.dead:
        raise Crash(self.dead)
      r = sorted(r)
      self.rng.shuffle(r)
      self.count("listings shuffled")
    return r

  def os_scandir(self, path="."):
    if not self.inside(path):
      return self.real["scandir"](path)
    with self.real["scandir"](path) as it:
      es = sorted(it, key=lambda e: e.name)
    self.rng.shuffle(es)
    self.count("listings shuffled")
    return _Scan(es)

  # --------------------------------------------------------- begin and end

  def __enter__(self):
    builtins.open = io.open = self.open
    for name in NAMES:
      h = getattr(self, "os_" + ALIAS.get(name, name), None)
      if h is not None:
        setattr(os, name, h)
    return self

  def __exit__(self, *exc):
    builtins.open = io.open = self.real_open
    for name in NAMES:
      setattr(os, name, self.real[name])
    return False

  def settle(self):
    """Directory operations of long ago are on the disk by now."""
    self.undo.clear()

  def files(self):
    out = {}
    for d, _, names in os.walk(self.root):
      for n in names:
        p = os.path.join(d, n)
        out.setdefault(os.stat(p).st_ino, p)
    return out

  def content(self, ino):
    p = self.files().get(ino)
    if p is None:
      return b""
    with self.real_open(p, "rb") as f:
      return f.read()

  def reboot(self, tears):
    """After the process has died: what is left (not while active)."""
    if self.dead is None:
      for r in self.raws:
        if not r.closed:
          r.close()
    for r in self.raws:
      r.kill()
    if self.dead != "power":
      return
    rng = random.Random(tears)
    n = rng.randrange(len(self.undo) + 1)
    for _ in range(n):
      self.count("crash undid a directory operation")
      self.undo.pop()()
    self.undo.clear()
    for ino, p in sorted(self.files().items(), key=lambda x: x[1]):
      with self.real_open(p, "rb") as f:
        now = f.read()
      old = self.synced.get(ino)
      if old != now:
        k = rng.randrange(5)
        m = rng.randrange(len(now) + 1)
        new = (old or b"" if k == 0 else now[:m] if k == 1 else
               now[:m] + bytes(len(now) - m) if k == 2 else
               bytes(m) + now[m:] if k == 3 else now)
        self.count("crash tore or lost unsynced data", int(new != now))
        if new != now:
          self.torn.add((ino, new))
        with self.real_open(p, "wb") as f:
          f.write(new)
        now = new
      self.synced[ino] = now


class _Scan:

  def __init__(self, es):
    self._it = iter(es)

  def __iter__(self):
    return self

  def __next__(self):
    return next(self._it)

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    return False

  def close(self):
    pass


ALIAS = {"replace": "rename", "remove": "unlink", "fdatasync": "fsync"}
NAMES = ("open", "write", "close", "fsync", "fdatasync", "rename", "replace",
         "unlink", "remove", "link", "mkdir", "rmdir", "listdir", "scandir",
         "readlink")
