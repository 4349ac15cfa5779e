"""ctypes access to JsonStreamParser compiled from /repo."""
import ctypes
import os

import cxx
import repoenv
import vp

_CB = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_int, ctypes.c_void_p,
                       ctypes.c_int64, ctypes.c_void_p, ctypes.c_int64)
_lib = None
REMOVE, SINGLE, UNQUOTED, LINEBREAK, TOKENS = 1, 2, 4, 8, 16
TYPES = ('obj', 'arr', 'str', 'token')


def build():
  global _lib
  flags = ['-std=c++20', '-O1', '-g0', '-fPIC', '-w', '-fsanitize=undefined',
           '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS',
           cxx.absl_std_view(),
           '-I' + os.path.join(cxx.SHIMS, 'absl_extra'),
           '-I' + os.path.join(cxx.SHIMS, 'arolla_cc'), '-I' + vp.REPO]
  objs = cxx.compile_objects(
      [os.path.join(vp.VERIF, 'native/json_parser_api.cc'),
       os.path.join(vp.REPO, 'koladata/operators/json_stream_parser.cc')],
      flags)
  so = os.path.join(repoenv.scratch(), 'json_parser.so')
  cxx.run(['g++', '-shared', '-fsanitize=undefined', '-o', so] + objs
          + cxx.absl_libs(), 'link')
  _lib = ctypes.CDLL(so)
  _lib.jp_new.restype = ctypes.c_void_p
  _lib.jp_new.argtypes = [ctypes.c_int, _CB]
  _lib.jp_add.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int64]
  for f in (_lib.jp_consume, _lib.jp_error):
    f.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_int64)]
    f.restype = ctypes.c_void_p
  _lib.jp_finalize.argtypes = [ctypes.c_void_p]
  _lib.jp_delete.argtypes = [ctypes.c_void_p]


class Parser:
  """events: ('begin', path, type) and ('end', path, json)."""

  def __init__(self, flags, on_event=None):
    self.events = []
    self._errors = []

    def cb(kind, type_, path, plen, json, jlen):
      try:
        p = ctypes.string_at(path, plen).decode('utf-8', 'surrogateescape')
        if kind == 0:
          e = ('begin', p, TYPES[type_])
        else:
          e = ('end', p, ctypes.string_at(json, jlen).decode(
              'utf-8', 'surrogateescape'))
        self.events.append(e)
        if on_event:
          on_event(self, e)
      except BaseException as ex:  # pylint: disable=broad-except
        self._errors.append(ex)

    self._cb = _CB(cb)
    self._h = _lib.jp_new(flags, self._cb)

  def add(self, chunk):
    ok = _lib.jp_add(self._h, chunk, len(chunk))
    self._raise()
    return bool(ok)

  def finalize(self):
    ok = _lib.jp_finalize(self._h)
    self._raise()
    return bool(ok)

  def consume(self):
    n = ctypes.c_int64()
    p = _lib.jp_consume(self._h, ctypes.byref(n))
    return ctypes.string_at(p, n.value) if n.value else b''

  def error(self):
    n = ctypes.c_int64()
    p = _lib.jp_error(self._h, ctypes.byref(n))
    return ctypes.string_at(p, n.value).decode('utf-8', 'replace')

  def _raise(self):
    if self._errors:
      raise self._errors[0]

  def __del__(self):
    if getattr(self, '_h', None):
      _lib.jp_delete(self._h)
      self._h = None
