"""In-memory FileSystemInterface with fault and crash injection.

Stands in for the `fs` argument the storage managers accept: every interaction
with the file system goes through it, so an injected fault or crash point covers
the whole persistence protocol.  rename(overwrite=False) is atomic and refuses
an existing destination, as the interface demands.
"""
import fnmatch
import io
import os
import threading


class Crash(BaseException):
  """The process died at this point."""


class Disk:
  """The state that survives a crash."""

  def __init__(self):
    self.files = {}
    self.dirs = {'/'}

  def snapshot(self):
    return dict(self.files), frozenset(self.dirs)


class _W(io.BytesIO):

  def __init__(self, fs, path, initial):
    super().__init__()
    self._fs, self._path = fs, path
    super().write(initial)
    self._initial = len(initial)

  def write(self, b):
    if isinstance(b, str):
      b = b.encode('utf-8')
    r = self._fs._point('write', self._path, lambda: self._flush_part(b))
    n = super().write(b)
    self._flush()
    self._fs._after(r, 'write', self._path)
    return n

  def _flush_part(self, b):
    # torn write: a prefix reached the disk.
    self._fs.disk.files[self._path] = self.getvalue() + bytes(b[:len(b) // 2])

  def _flush(self):
    with self._fs.lock:
      self._fs.disk.files[self._path] = self.getvalue()

  def close(self):
    if not self.closed:
      super().close()

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


def make(base):
  """Returns the class MemFs deriving from the repository's interface."""

  class MemFs(base):

    def __init__(self, disk, plan=None):
      """plan: {op index: 'error' | 'error_after' | 'crash' | callable}."""
      self.disk = disk
      self.plan = dict(plan or {})
      self.count = 0
      self.dead = False
      self.lock = threading.RLock()
      self.log = []

    def _point(self, kind, path, partial=None):
      """Called before every effect; decides about an injected fault.

      Returns 'error_after' if the effect must happen and then fail.
      """
      with self.lock:
        if self.dead:
          raise Crash('process is dead')
        i = self.count
        self.count += 1
        self.log.append((kind, path))
        act = self.plan.pop(i, None)
        if act is None:
          return None
        if act == 'crash':
          self.dead = True
          if partial is not None:
            partial()
          raise Crash(f'crash at {kind} {path}')
        if act == 'crash_after':
          return act
        if act == 'error':
          if partial is not None:
            partial()
          raise OSError(f'injected fault at {kind} {path}')
        if act == 'error_after':
          return act
      # A callable runs another client at this point.
      act()
      return None

    def _after(self, r, kind, path):
      if r == 'error_after':
        raise OSError(f'injected fault after {kind} {path}')
      if r == 'crash_after':
        self.dead = True
        raise Crash(f'crash after {kind} {path}')

    @staticmethod
    def _n(p):
      return os.path.normpath(p)

    def exists(self, filepath):
      p = self._n(filepath)
      self._after(self._point('exists', p), 'exists', p)
      return p in self.disk.files or p in self.disk.dirs

    def is_dir(self, filepath):
      p = self._n(filepath)
      self._after(self._point('is_dir', p), 'is_dir', p)
      return p in self.disk.dirs

    def open(self, filepath, mode='r'):
      p = self._n(filepath)
      r = self._point('open:' + mode, p)
      with self.lock:
        if 'r' in mode:
          if p not in self.disk.files:
            raise FileNotFoundError(p)
          self._after(r, 'open', p)
          data = self.disk.files[p]
          return io.BytesIO(data) if 'b' in mode else io.StringIO(data.decode())
        if os.path.dirname(p) not in self.disk.dirs:
          raise FileNotFoundError(p)
        if p in self.disk.dirs:
          raise IsADirectoryError(p)
        if 'x' in mode and p in self.disk.files:
          raise FileExistsError(p)
        initial = self.disk.files.get(p, b'') if 'a' in mode else b''
        self.disk.files[p] = initial
        self._after(r, 'open', p)
        return _W(self, p, initial)

    def remove(self, filepath):
      p = self._n(filepath)
      r = self._point('remove', p)
      with self.lock:
        del self.disk.files[p]
      self._after(r, 'remove', p)

    def rename(self, oldpath, newpath, overwrite=False):
      a, b = self._n(oldpath), self._n(newpath)
      r = self._point('rename', b)
      with self.lock:
        if b in self.disk.dirs or (b in self.disk.files and not overwrite):
          raise FileExistsError(b)
        if os.path.dirname(b) not in self.disk.dirs:
          raise FileNotFoundError(b)
        if a in self.disk.dirs:
          for k in [k for k in self.disk.files if k.startswith(a + '/')]:
            self.disk.files[b + k[len(a):]] = self.disk.files.pop(k)
          for k in [k for k in self.disk.dirs
                    if k == a or k.startswith(a + '/')]:
            self.disk.dirs.discard(k)
            self.disk.dirs.add(b + k[len(a):])
        else:
          self.disk.files[b] = self.disk.files.pop(a)
      self._after(r, 'rename', b)

    def make_dirs(self, dirpath):
      p = self._n(dirpath)
      r = self._point('make_dirs', p)
      with self.lock:
        q = p
        while q not in self.disk.dirs:
          if q in self.disk.files:
            raise NotADirectoryError(q)
          self.disk.dirs.add(q)
          q = os.path.dirname(q)
      self._after(r, 'make_dirs', p)

    def glob(self, pattern):
      r = self._point('glob', pattern)
      pat = pattern.split('/')
      out = []
      with self.lock:
        for p in list(self.disk.files) + list(self.disk.dirs):
          parts = p.split('/')
          if len(parts) == len(pat) and all(
              fnmatch.fnmatchcase(n, c)
              and (not n.startswith('.') or c.startswith('.'))
              for n, c in zip(parts, pat)):
            out.append(p)
      self._after(r, 'glob', pattern)
      return out

  return MemFs
