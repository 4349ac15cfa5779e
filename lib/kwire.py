"""A reader and a writer of serialized koda values.

They follow the comments of koladata/s11n/codec.proto, in the version of
shims/s11n: what was stored once has to stay readable.
"""
import functools
import os
import struct

from google.protobuf import descriptor_pb2
from google.protobuf import descriptor_pool
from google.protobuf import message_factory

import cxx
import kcast
import kcore
import kd
import repoenv
import vp
from vp import expect, expect_eq

DTYPES = ('sINT64', 'sINT32', 'sFLOAT32', 'sFLOAT64', 'sBOOLEAN', 'sMASK',
          'sBYTES', 'sSTRING', 'sEXPR', None, 'sITEMID', 'sOBJECT', 'sSCHEMA',
          'sNONE')
REMOVED, UNSET = 254, 255
CODEC = 'koladata.s11n'
M64 = (1 << 64) - 1
# field of the value, and its number.
FIELDS = {'o': ('object_id', 1), 'i': ('i32', 2), 'l': ('i64', 3),
          'f': ('f32', 4), 'd': ('f64', 5), 'b': ('boolean', 6),
          'p': ('unit', 7), 't': ('text', 8), 'y': ('bytes_data', 9),
          's': ('dtype', 10), 'e': ('expr_quote', 11)}
KINDS = {n: k for k, (_, n) in FIELDS.items()}


@functools.lru_cache(None)
def _pool():
  out = os.path.join(repoenv.scratch(), 'kwire-%d.pb' % os.getpid())
  cxx.run(['/usr/bin/protoc', '-I' + os.path.join(kcore.KSHIM, 'proto'),
           '-I' + os.path.join(cxx.SHIMS, 's11n'), '--descriptor_set_out', out,
           '--include_imports', 'pinned_codec.proto'], 'protoc')
  fs = descriptor_pb2.FileDescriptorSet()
  with open(out, 'rb') as f:
    fs.ParseFromString(f.read())
  os.remove(out)
  pool = descriptor_pool.DescriptorPool()
  for f in fs.file:
    pool.Add(f)
  return pool


@functools.lru_cache(None)
def cls(name):
  return message_factory.GetMessageClass(_pool().FindMessageTypeByName(name))


def container():
  cls('koladata.s11n.KodaV1Proto')
  return cls('arolla.serialization_base.VerifContainer')()


def _ext(name):
  cls('koladata.s11n.KodaV1Proto')
  d = _pool().FindExtensionByName(name)
  return d


def koda(value):
  return value.Extensions[_ext('koladata.s11n.KodaV1Proto.extension')]


def builtin(value):
  return value.Extensions[
      _ext('arolla.serialization_base.VerifBuiltin.extension')]


# --- tokens -----------------------------------------------------------------


def num(tok):
  """(hi, lo) of an id."""
  return int(tok[3:19], 16), int(tok[19:35], 16)


def anon(tok):
  """Ids without the letters of their kind."""
  return 'o' + tok[3:35] if tok[0] == 'o' else tok


def id_tok(hi, lo, k=0):
  lo += k
  return 'o%016x%016x' % (hi, lo & M64)


def raw(tok):
  """The Python value of a token."""
  k, r = tok[0], tok[1:]
  if k in 'il':
    return int(r)
  if k == 'f':
    return struct.unpack('>f', bytes.fromhex(r))[0]
  if k == 'd':
    return struct.unpack('>d', bytes.fromhex(r))[0]
  if k == 'b':
    return r == '1'
  if k == 't':
    return kd.unpct_text(r)
  if k == 'y':
    return kd.unpct(r)
  if k == 's':
    return DTYPES.index(tok)
  return True


def tok(kind, v):
  if kind in 'il':
    return f'{kind}{v}'
  if kind == 'f':
    return 'f' + ('7fc00000' if v != v else struct.pack('>f', v).hex())
  if kind == 'd':
    return 'd' + ('7ff8000000000000' if v != v else struct.pack('>d', v).hex())
  if kind == 'b':
    return 'b1' if v else 'b0'
  if kind in 'ty':
    return kind + kd.pct(v)
  if kind == 's':
    expect(0 <= v < len(DTYPES) and DTYPES[v], f'dtype {v}')
    return DTYPES[v]
  return 'p'


# --- reader -----------------------------------------------------------------


class Reader:

  def __init__(self, blob):
    self.c = container()
    self.c.ParseFromString(blob)
    self.values = []
    for v in self.c.values:
      self.values.append(self.read(v))

  def outputs(self):
    return [self.values[i] for i in self.c.outputs]

  def read(self, v):
    codec = self.c.codecs[v.codec_index]
    args = [self.values[i] for i in v.input_value_indices]
    if codec == 'builtin':
      b = builtin(v)
      if b.HasField('data'):
        return ('bytes', b.data)
      if b.is_shape:
        return ('shape', tuple(
            tuple(y - x for x, y in zip(e.split_points, e.split_points[1:]))
            for e in b.shape))
      return ('expr', b.expr)
    expect_eq(codec, CODEC, 'name of the codec')
    k = koda(v)
    what = k.WhichOneof('value')
    if what == 'internal_data_item_value':
      return ('item', self.item(k.internal_data_item_value, args))
    if what == 'data_slice_impl_value':
      s = k.data_slice_impl_value
      if s.WhichOneof('value') == 'data_item_vector':
        return ('items', [self.item(x, args)
                          for x in s.data_item_vector.values])
      return ('items', self.compact(s.data_slice_compact, args))
    if what in ('data_slice_value_v2', 'data_slice_value'):
      return ('slice', args, what == 'data_slice_value_v2'
              and k.data_slice_value_v2.is_whole)
    if what == 'data_bag_value':
      return ('bag', self.bag(k.data_bag_value, args))
    if what == 'jagged_shape_value':
      return ('kshape', args[0][1])
    return (what,)

  def item(self, p, args):
    f = p.WhichOneof('value')
    if f == 'missing':
      return '_'
    if f == 'object_id':
      return id_tok(p.object_id.hi, p.object_id.lo)
    if f == 'expr_quote':
      e = args.pop(0)
      expect_eq(e[0], 'expr', 'type of an expression')
      return 'e' + kd.pct(e[1].removeprefix('L.'))
    kind = next(k for k, (n, _) in FIELDS.items() if n == f)
    return tok(kind, getattr(p, f))

  def compact(self, p, args):
    n = p.extra_part_count
    parts = [p]
    for a in args[len(args) - n:] if n else ():
      expect_eq(a[0], 'bytes', 'type of an extra part')
      q = type(p)()
      q.ParseFromString(a[1])
      parts.append(q)
    exprs = args[:len(args) - n]
    left = {}
    for k, (f, _) in FIELDS.items():
      if k == 'o':
        hi = lo = 0
        ids = left[k] = []
        for q in parts:
          expect_eq(len(q.object_id.hi), len(q.object_id.lo), 'parts of ids')
          for h, l in zip(q.object_id.hi, q.object_id.lo):
            hi, lo = (hi + h) & M64, (lo + l) & M64
            ids.append(id_tok(hi, lo))
      elif k not in 'pe':
        left[k] = [tok(k, x) for q in parts for x in getattr(q, f)]
    left['e'] = ['e' + kd.pct(e[1].removeprefix('L.')) for e in exprs]
    for v in left.values():
      v.reverse()
    out = []
    for t in p.types_buffer:
      if t in (REMOVED, UNSET):
        out.append('r' if t == REMOVED else '_')
      else:
        k = KINDS[t]
        out.append('p' if k == 'p' else left[k].pop())
    expect(not any(left.values()), f'values that are not used: {left}')
    return out

  def bag(self, p, args):
    out = {'fallbacks': [a[1] for a in args[:p.fallback_count]],
           'immutable': p.immutable, 'triples': set(),
           'id': (p.bag_id_hi, p.bag_id_lo) if p.immutable else None}
    t = out['triples']
    for a in p.attrs:
      for c in a.chunks:
        kind, v = args[c.values_subindex]
        hi, lo = c.first_object_id.hi, c.first_object_id.lo
        if kind == 'item':
          t.add(f'a:{id_tok(hi, lo)}:{kd.pct(a.name)}:{v}')
        else:
          for k, x in enumerate(v):
            if x != '_':
              x = '_' if x == 'r' else x
              t.add(f'a:{id_tok(hi, lo, k)}:{kd.pct(a.name)}:{x}')
    for d in p.dicts:
      for k, v in zip(args[d.keys_subindex][1], args[d.values_subindex][1],
                      strict=True):
        v = '_' if v == 'r' else v
        t.add(f'd:{id_tok(d.dict_id.hi, d.dict_id.lo)}:{k}:{v}')
    for l in p.lists:
      v = ['_' if x == 'r' else x for x in args[l.values_subindex][1]]
      t.add(f'l:{id_tok(l.list_id.hi, l.list_id.lo)}:{kd.items(v)}')
    return out


def dump(text):
  """The triples of b.dump without kinds of ids."""
  out = set()
  for x in text.split():
    f = x.split(':')
    f[1:] = [','.join(anon(y) if len(y) == 35 or y.endswith('!untracked') else y
                      for y in z.split(',')) for z in f[1:]]
    out.add(':'.join(f))
  return out


# --- writer -----------------------------------------------------------------


class Writer:

  def __init__(self, tape):
    self.t = tape  # kgraph.Tape
    self.c = container()
    self.c.codecs.extend([CODEC, 'builtin'])

  def blob(self, *outputs):
    self.c.outputs.extend(outputs)
    return self.c.SerializeToString()

  def sorted(self, output):
    """The message, with inputs before the values that use them."""
    old, order = list(self.c.values), {}

    def visit(i):
      for j in old[i].input_value_indices:
        visit(j) if j not in order else None
      order[i] = len(order)

    visit(output)
    del self.c.values[:]
    for i in order:
      v = self.c.values.add()
      v.CopyFrom(old[i])
      v.input_value_indices[:] = [order[j] for j in old[i].input_value_indices]
    return self.blob(order[output])

  def value(self, args=(), codec=0):
    v = self.c.values.add()
    v.codec_index = codec
    v.input_value_indices.extend(args)
    return v, len(self.c.values) - 1

  def expr(self, t):
    v, i = self.value(codec=1)
    builtin(v).expr = 'L.' + kd.unpct_text(t[1:])
    return i

  def bytes(self, b):
    v, i = self.value(codec=1)
    builtin(v).data = b
    return i

  def shape(self, shape):
    v, i = self.value(codec=1)
    b = builtin(v)
    b.is_shape = True
    for e in shape:
      s, p = b.shape.add(), 0
      s.split_points.append(0)
      for n in e:
        p += n
        s.split_points.append(p)
    return i

  def put(self, p, t):
    """Sets a DataItemProto."""
    if t == '_':
      p.missing = True
    elif t[0] == 'o':
      p.object_id.hi, p.object_id.lo = num(t)
    else:
      setattr(p, FIELDS[t[0]][0], raw(t))

  def item(self, t):
    args = [self.expr(t)] if t[0] == 'e' else []
    v, i = self.value(args)
    self.put(koda(v).internal_data_item_value, t)
    return i

  def vector(self, toks):
    args = [self.expr(t) for t in toks if t[0] == 'e']
    v, i = self.value(args)
    p = koda(v).data_slice_impl_value.data_item_vector
    p.SetInParent()
    for t in toks:
      self.put(p.values.add(), t)
    return i

  def compact(self, toks):
    """Tokens; 'r' removed; split into parts at random."""
    parts = [cls('koladata.s11n.KodaV1Proto.DataSliceCompactProto')()]
    types = bytearray()
    state = {}

    def add(t):
      k = t[0]
      q = parts[state.setdefault(k, 0)]
      if k == 'o':
        hi, lo = num(t)
        h, l = state.get('last', (0, 0))
        q.object_id.hi.append((hi - h) & M64)
        q.object_id.lo.append((lo - l) & M64)
        state['last'] = hi, lo
      else:
        getattr(q, FIELDS[k][0]).append(raw(t))
      # Values of a type never go back to an earlier part.
      while self.t.chance(8):
        state[k] += 1
        if state[k] == len(parts):
          parts.append(type(q)())

    exprs = []
    for t in toks:
      if t in ('_', 'r'):
        types.append(UNSET if t == '_' else REMOVED)
        continue
      types.append(FIELDS[t[0]][1])
      if t[0] == 'e':
        exprs.append(self.expr(t))
      elif t[0] != 'p':
        add(t)
    extra = [self.bytes(q.SerializeToString()) for q in parts[1:]]
    v, i = self.value(exprs + extra)
    p = koda(v).data_slice_impl_value.data_slice_compact
    p.CopyFrom(parts[0])
    p.types_buffer = bytes(types)
    if extra:
      p.extra_part_count = len(extra)
    return i

  def items(self, toks):
    if 'r' not in toks and self.t.chance(4):
      return self.vector(toks)
    return self.compact(toks)

  def slice(self, schema, shape, toks, bag=None, whole=None):
    values = self.items(toks) if shape else self.item(toks[0])
    args = [values, self.shape(shape), self.item(schema)]
    if bag is not None:
      args.append(bag)
    v, i = self.value(args)
    if whole is None:
      koda(v).data_slice_value = True
    else:
      koda(v).data_slice_value_v2.is_whole = whole
    return i

  def bag(self, content, fallbacks=(), immutable=None, bag_id=None):
    """content: {'attrs': [(name, first id, values)], 'lists', 'dicts'}."""
    args = list(fallbacks)

    def sub(i):
      args.append(i)
      return len(args) - 1

    p = cls('koladata.s11n.KodaV1Proto.DataBagProto')()
    p.fallback_count = len(fallbacks)
    if immutable is not None:
      p.immutable = immutable
    if bag_id:
      p.bag_id_hi, p.bag_id_lo = bag_id
    for name, chunks in content.get('attrs', ()):
      a = p.attrs.add()
      a.name = name
      for first, v in chunks:
        c = a.chunks.add()
        c.first_object_id.hi, c.first_object_id.lo = num(first)
        c.values_subindex = sub(self.item(v) if isinstance(v, str)
                                else self.compact(v))
    for l, v in content.get('lists', ()):
      q = p.lists.add()
      q.list_id.hi, q.list_id.lo = num(l)
      q.values_subindex = sub(self.items(v))
    for d, m in content.get('dicts', ()):
      q = p.dicts.add()
      q.dict_id.hi, q.dict_id.lo = num(d)
      ks, vs = self.items(list(m)), self.items(list(m.values()))
      if self.t.chance(2):
        q.keys_subindex, q.values_subindex = sub(ks), sub(vs)
      else:
        q.values_subindex, q.keys_subindex = sub(vs), sub(ks)
    v, i = self.value(args)
    koda(v).data_bag_value.CopyFrom(p)
    return i
