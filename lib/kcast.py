"""Reference model of schemas, casting and shapes over value tokens.

A schema token is 's<NAME>' (dtype) or an id of kind x, i or n; an item token
is '_' (missing) or starts with its type: i l f d b p t y e s o.
"""
import math
import struct

import numpy as np

NUM = ('sINT32', 'sINT64', 'sFLOAT32', 'sFLOAT64')
SELF = ('sMASK', 'sBOOLEAN', 'sBYTES', 'sSTRING', 'sEXPR')
DTYPES = ('sNONE',) + NUM + SELF + ('sITEMID', 'sSCHEMA', 'sOBJECT')
OF = {'i': 'sINT32', 'l': 'sINT64', 'f': 'sFLOAT32', 'd': 'sFLOAT64',
      'b': 'sBOOLEAN', 'p': 'sMASK', 't': 'sSTRING', 'y': 'sBYTES',
      'e': 'sEXPR', 's': 'sSCHEMA'}


class Bad(Exception):
  """The operation has to be rejected."""


def is_id(tok):
  return tok[0] == 'o'


def kind(tok):
  return tok[2]


def is_schema_id(tok):
  return tok[0] == 'o' and tok[2] in 'xin'


def f32(x):
  return 'f%08x' % struct.unpack('<I', struct.pack('<f', x))[0] if x == x else 'f7fc00000'


def f64(x):
  return 'd%016x' % struct.unpack('<Q', struct.pack('<d', x))[0] if x == x else 'd7ff8000000000000'


def num(tok):
  """The number of a token."""
  if tok[0] in 'il':
    return int(tok[1:])
  if tok[0] == 'f':
    return struct.unpack('<f', struct.pack('<I', int(tok[1:], 16)))[0]
  if tok[0] == 'd':
    return struct.unpack('<d', struct.pack('<Q', int(tok[1:], 16)))[0]
  raise Bad(tok)


def lower(a, b):
  """Whether dtype a converts implicitly to dtype b."""
  if a == b or a == 'sNONE':
    return True
  if a in NUM and b in NUM:
    return NUM.index(a) < NUM.index(b)
  return b == 'sOBJECT' and (a in NUM or a in SELF)


def common(schemas):
  """The common schema of the present schemas, None if there are none."""
  ds = {s for s in schemas if s != '_' and not is_id(s)}
  ids = {s for s in schemas if s != '_' and is_id(s)}
  if not ds and not ids:
    return None
  if ids:
    if len(ids) > 1 or ds - {'sNONE'}:
      raise Bad('no common schema')
    return ids.pop()
  best = [c for c in DTYPES if all(lower(d, c) for d in ds)]
  if not best:
    raise Bad('no common schema')
  for c in best:
    if all(lower(c, o) for o in best):
      return c
  raise AssertionError(best)


def implicit_ok(a, b):
  if is_id(a) or is_id(b):
    return a == b or a == 'sNONE'
  return lower(a, b)


def convert(tok, to):
  """A numeric item as another numeric type; other items as they are."""
  if tok == '_' or to not in NUM or tok[0] not in 'ilfd':
    return tok
  v = num(tok)
  with np.errstate(all='ignore'):
    if to == 'sFLOAT32':
      return f32(float(np.float32(v)) if not isinstance(v, int)
                 else float(np.int64(v).astype(np.float32)))
    if to == 'sFLOAT64':
      return f64(float(v))
    lo = {'sINT32': 31, 'sINT64': 63}[to]
    if isinstance(v, float):
      if not math.isfinite(v):
        raise Bad(tok)
      v = int(v)
    if not -2**lo <= v < 2**lo:
      raise Bad(tok)
    return ('i' if to == 'sINT32' else 'l') + str(v)


def data_schema(items, obj_schema):
  """The common schema of the items, None if it is not clear."""
  ss = ['sNONE']
  for t in items:
    if t == '_':
      continue
    if is_id(t):
      s = obj_schema(t) if obj_schema else None
      if s in (None, '_'):
        return None
      ss.append(s)
    else:
      ss.append(OF[t[0]])
  try:
    return common(ss)
  except Bad:
    return None


def narrowed(schema, items, obj_schema):
  if schema != 'sOBJECT':
    return schema
  return data_schema(items, obj_schema) or schema


def cast_narrow(schema, items, to, obj_schema):
  if common([narrowed(schema, items, obj_schema), to]) != to:
    raise Bad('narrowing')
  return [convert(t, to) for t in items]


# --- shapes: a tuple of tuples of group sizes, () for a scalar --------------


def size(shape):
  return sum(shape[-1]) if shape else 1


def shape_tok(shape):
  return '/'.join(','.join(map(str, e)) or '.' for e in shape) if shape else '-'


def parse_shape(s):
  if s == '-':
    return ()
  return tuple(tuple(int(x) for x in e.split(',')) if e != '.' else ()
               for e in s.split('/'))


def broadcast(items, shape, to):
  """The items of a slice of the given shape, expanded."""
  if shape != to[:len(shape)]:
    raise Bad('shape')
  out = list(items)
  for edge in to[len(shape):]:
    out = [v for v, n in zip(out, edge) for _ in range(n)]
  return out


def groups(items, edge):
  it = iter(items)
  return [[next(it) for _ in range(n)] for n in edge]
