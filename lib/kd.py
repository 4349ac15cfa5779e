"""Python side of the kcore driver (native/kcore_main.cc).

Values are exchanged as text tokens (see native/kcore_io.h); a token identifies
a value together with its type, so the reference models below treat tokens as
opaque values.
"""
import os
import resource
import select
import subprocess
import tempfile
import urllib.parse

import kcore
import vp

_exe = None


def build(name, drivers, groups=('internal', 'public')):
  """Builds the driver (once, before the clauses are forked)."""
  global _exe
  pre = os.environ.get('VERIF_KEXE')  # For development only.
  if pre:
    _exe = pre
    return
  _exe = kcore.build(name, ['kcore_main.cc', *drivers], groups=groups)


class KdError(Exception):
  """The library reported an error."""


def pct(s):
  """Percent-encodes text or bytes the way the driver does."""
  if isinstance(s, str):
    s = s.encode()
  return ''.join(chr(c) if chr(c).isalnum() and c < 128 or c in b'_-'
                 else '%%%02x' % c for c in s)


def unpct(s):
  return urllib.parse.unquote_to_bytes(s)


def unpct_text(s):
  return unpct(s).decode()


def _limits():
  resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
  resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Driver:
  """One driver process; restarted when it dies."""

  TIMEOUT_S = 150

  def __init__(self):
    self._p = None

  def _start(self):
    self._err = tempfile.TemporaryFile()
    self._p = subprocess.Popen(
        [_exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=self._err, bufsize=0, preexec_fn=_limits)
    self._buf = b''

  def _line(self):
    fd = self._p.stdout.fileno()
    while True:
      i = self._buf.find(b'\n')
      if i >= 0:
        line, self._buf = self._buf[:i], self._buf[i + 1:]
        return line.decode('ascii')
      r, _, _ = select.select([fd], [], [], self.TIMEOUT_S)
      if not r:
        self.kill()
        raise vp.Violation('an operation did not finish within'
                           f' {self.TIMEOUT_S} s: {self._last[:2000]}')
      d = os.read(fd, 1 << 16)
      if not d:
        code = self._p.wait()
        self._err.seek(0)
        err = self._err.read()[-1500:].decode('utf-8', 'replace')
        self.kill()
        raise vp.Violation(f'the process died (code {code}) in: '
                           f'{self._last[:2000]}\n{err}')
      self._buf += d

  def kill(self):
    if self._p is not None:
      self._p.kill()
      self._p.wait()
      for f in (self._p.stdin, self._p.stdout, self._err):
        try:
          f.close()
        except OSError:
          pass
      self._p = None

  def reset(self):
    """Forgets all values; a fresh process when there is none."""
    if self._p is None:
      self._start()
    self.turn = 0
    self.call('reset')

  def call(self, *args):
    if self._p is None:
      self._start()
    line = ' '.join(map(str, args))
    self._last = line
    try:
      data = (line + '\n').encode()
      while data:
        data = data[os.write(self._p.stdin.fileno(), data):]
    except BrokenPipeError:
      pass
    reply = self._line()
    if reply[0] == '=':
      return reply[2:]
    if reply[0] == '!':
      raise KdError(unpct(reply[2:]).decode('utf-8', 'replace'))
    raise vp.HarnessError(f'{line[:500]}: {unpct(reply[2:])}')

  def fails(self, *args):
    """Whether the operation reports an error."""
    try:
      self.call(*args)
    except KdError:
      return True
    return False


_driver = None


def driver():
  """The driver of this process, with no values."""
  global _driver
  if _driver is None or _driver[0] != os.getpid():
    _driver = (os.getpid(), Driver())
  _driver[1].reset()
  return _driver[1]


_other = None


def other():
  """A driver in another process of the library."""
  global _other
  if _other is None or _other[0] != os.getpid():
    _other = (os.getpid(), Driver())
  _other[1].reset()
  return _other[1]


def items(toks):
  return ','.join(toks) if toks else '.'


def parse_items(s):
  return [] if s == '.' else s.split(',')


def edge(sizes):
  return ','.join(map(str, sizes)) if sizes else '.'


def parse_edge(s):
  return [] if s == '.' else [int(x) for x in s.split(',')]


def ints(values):
  return items(['_' if v is None else f'l{v}' for v in values])


class Alloc:
  """An allocation of ObjectIds."""

  def __init__(self, d, kind, size, single=False):
    self.kind = kind
    self.size = size
    if single:
      self.first, self.capacity = d.call('alloc1', kind), 1
    else:
      self.first, cap = d.call('alloc', kind, size).split()
      self.capacity = int(cap)
    self._prefix = self.first[:3] + self.first[3:19]
    self._low = int(self.first[19:], 16)
    self.ids = [f'{self._prefix}{self._low + i:016x}' for i in range(size)]

  def __getitem__(self, i):
    return self.ids[i % len(self.ids)]


def id_tok(i, kind='e'):
  return i


PRIMS = ('i0', 'i1', 'i-7', 'l0', 'l1', 'l9000000000', 'f3f800000', 'f7fc00000',
         'd3ff0000000000000', 'd8000000000000000', 'b0', 'b1', 'p', 't', 'ta',
         't%c3%a9', 'tlonger_than_a_small_string_buffer', 'y', 'ya', 'y%00%ff',
         'eL1', 'sINT32', 'sOBJECT')
