"""ctypes access to the JSON stream processors compiled from /repo."""
import ctypes
import os
import struct

import cxx
import repoenv
import vp

_OUT = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_int64)
_MATCH = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_int64)
_lib = None


def build():
  global _lib
  flags = ['-std=c++20', '-O1', '-g0', '-fPIC', '-w', '-fsanitize=undefined',
           '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS',
           '-I' + os.path.join(cxx.SHIMS, 'absl_extra'), '-I' + vp.REPO]
  objs = cxx.compile_objects(
      [os.path.join(vp.VERIF, 'native/json_stream_api.cc'),
       os.path.join(vp.REPO, 'koladata/internal/op_utils/json_stream.cc')],
      flags)
  so = os.path.join(repoenv.scratch(), 'json_stream.so')
  cxx.run(['g++', '-shared', '-fsanitize=undefined', '-o', so] + objs
          + cxx.absl_libs() + ['-licuuc'], 'link')
  _lib = ctypes.CDLL(so)
  _lib.js_new.restype = ctypes.c_void_p
  _lib.js_new.argtypes = [ctypes.c_char_p, ctypes.c_int64, ctypes.c_int,
                          ctypes.c_char_p, ctypes.c_int64, _MATCH]
  _lib.js_process.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int64,
                              ctypes.c_int, _OUT]
  _lib.js_delete.argtypes = [ctypes.c_void_p]


def decode_path(b):
  out = []
  i = 0
  while i < len(b):
    n, = struct.unpack_from('<Q', b, i + 1)
    p = b[i + 9:i + 9 + n]
    out.append(int(p) if b[i:i + 1] == b'i' else p.decode())
    i += 9 + n
  return tuple(out)


class Proc:
  """One processor instance."""

  def __init__(self, kind, n=0, flags=0, s=b'', match=None):
    self._errors = []

    def m(p, k):
      try:
        return 1 if match(decode_path(ctypes.string_at(p, k))) else 0
      except BaseException as e:  # pylint: disable=broad-except
        self._errors.append(e)
        return 0

    self._match = _MATCH(m)
    self._h = _lib.js_new(kind.encode(), n, flags, s, len(s), self._match)
    if not self._h:
      raise vp.HarnessError(kind)

  def process(self, chunk, end):
    """Returns (list of output chunks, is_end)."""
    out = []
    cb = _OUT(lambda p, k: out.append(ctypes.string_at(p, k)))
    r = _lib.js_process(self._h, chunk, len(chunk), int(end), cb)
    if self._errors:
      raise self._errors[0]
    return out, bool(r)

  def __del__(self):
    if self._h:
      _lib.js_delete(self._h)
      self._h = None


def run(kind, chunks, **kw):
  """Feeds all chunks; returns (output bytes, output chunks).

  The last chunk is sent together with the end of the input.
  """
  p = Proc(kind, **kw)
  out = []
  for i, c in enumerate(chunks):
    last = i == len(chunks) - 1
    o, end = p.process(c, last)
    out += o
    if end:
      return b''.join(out), out
    vp.expect(not last, f'{kind}: the output does not end with the input')
  raise vp.HarnessError('no chunks')


def pipe(stages, chunks):
  """Runs stages (kind, kwargs) the way koladata/operators/json_stream.cc does.

  Returns (output bytes, output chunks, number of input chunks consumed).
  """
  procs = [Proc(k, **kw) for k, kw in stages]
  out = []

  def feed(data, at_end):
    batch = [data]
    is_end = at_end
    for p in procs:
      nxt = []
      ended = False
      for c in batch:
        if ended:
          break
        o, e = p.process(c, False)
        nxt += o
        ended = ended or e
      if is_end and not ended:
        o, e = p.process(b'', True)
        vp.expect(e, 'the output does not end with the input')
        nxt += o
        ended = True
      batch = nxt
      is_end = ended
    out.extend(batch)
    return is_end

  for i, c in enumerate(chunks):
    if feed(c, False):
      return b''.join(out), out, i + 1
  feed(b'', True)
  return b''.join(out), out, len(chunks) + 1


COMPACT = ('compactify', {})
