"""C34: conversion of protocol buffer messages to Koda data and back."""
import json
import math
import struct

from google.protobuf import descriptor_pb2
from google.protobuf import descriptor_pool
from google.protobuf import json_format

import kcast
import kd
import kgraph
import kproto
import kpub
import vp
from vp import expect, expect_eq, st

check = vp.Check(
    'C34',
    'Random message types (all field types, presence kinds, oneofs, maps,'
    ' recursion, extensions, annotations, custom defaults; proto2 and proto3)'
    ' and random messages of them are converted with and without schemas, item'
    ' ids and extension paths, and back. Judged by a model of the conversion'
    ' written against the protobuf runtime of Python. Non-trivial: at least'
    ' five converted nodes.',
    ['arolla is replaced by the stand-in in shims/kcore.',
     'protobuf C++ is the version installed in the sandbox (3.21).'])


@check.setup
def _setup():
  kd.build('proto', ['kcore_public.cc', 'kcore_ops.cc', 'kcore_proto.cc'],
           groups=('internal', 'public', 'operators', 'proto'))


TAPES = kgraph.tapes


def show(d, reg):
  v = kpub.show(d, reg)
  return v.schema, v.shape, v.items


def pb(m):
  return kd.pct(m.SerializePartialToString()) or '.'


def convert(d, types, messages, ext=(), bag='-', ids='-', schema='-',
            desc=None):
  return d.call('p.from', (desc or types.root).full_name, bag, ids, schema,
                len(ext), *map(kd.pct, ext), *map(pb, messages))


def back(d, types, reg, desc=None):
  """The messages that the slice is converted to."""
  cls = types.cls(desc)
  r = d.call('p.to', reg, (desc or types.root).full_name)
  return [cls.FromString(b'' if w == '.' else kd.unpct(w))
          for w in ([] if r == 'none' else r.split())]


def full(types, m, options=None):
  """The model of a message with all of its extensions."""
  out = {}
  v = kproto.model(m, _AllExt(types, m.DESCRIPTOR), options)
  return v


class _AllExt:
  """An ExtMap that has the same extensions of a type wherever it is.

  All of them, or the ones in `only` (full name of the type -> attributes).
  """

  def __init__(self, types, desc, only=None):
    self.fields = {kproto.attr_name(f): f
                   for f in types.extensions.get(desc.full_name, ())
                   if only is None
                   or kproto.attr_name(f) in only.get(desc.full_name, ())}
    self.sub = _AllSub(types, desc, only)


class _AllSub:

  def __init__(self, types, desc, only):
    self.types, self.desc, self.only = types, desc, only

  def get(self, name, default=None):
    for f in [*self.desc.fields, *self.types.extensions[self.desc.full_name]]:
      if kproto.attr_name(f) == name:
        if kproto.is_map(f):
          x = f.message_type.fields_by_name['value'].message_type
          e = kproto.ExtMap()
          if x is not None:
            e.sub['values'] = _AllExt(self.types, x, self.only)
          return e
        return (_AllExt(self.types, f.message_type, self.only) if f.message_type
                else kproto.NO_EXT)
    return default


def ids_of(d, types):
  """schema id -> full name, of the message types."""
  b = d.call('b.new')
  out = {}
  for m in types.desc:
    r = d.call('f.uuschema', b, kd.pct(f'__from_proto_{m.full_name}__'), 0)
    out[show(d, r)[2][0]] = m.full_name
  return out


def values(d, reg, names=None):
  schema, shape, items = show(d, reg)
  bag = d.call('s.bag', reg)
  c = kgraph.content(d, bag) if bag != '-' else kgraph.Content()
  return schema, shape, items, c, [kproto.read(c, schema, x, names)
                                   for x in items]


def setup(tape, **kw):
  d = kd.driver()
  t = kgraph.Tape(tape)
  types = kproto.Types(t, **kw)
  types.load(d)
  return d, t, types


@check.clause(TAPES, n=600, thorough=6000, budget_s=60)
def from_proto(case):
  d, t, types = setup(case)
  messages = [types.message() for _ in range(t.pick(4))]
  paths, ext = types.paths()
  names = ids_of(d, types)
  target = d.call('b.new') if t.chance(3) else '-'
  r = convert(d, types, messages, paths, target)
  schema, shape, items, c, got = values(d, r, names)
  expect_eq(shape, ((len(messages),),), 'the shape')
  if target != '-':
    expect_eq(d.call('s.bag', r), target, 'the bag')
  if not messages:
    return False
  seen = {}
  want = [kproto.model(m, ext, types.options, seen) for m in messages]
  expect_eq(names.get(schema), types.root.full_name, 'the schema')
  expect_eq(got, want, 'the converted messages')
  # Exactly the fields that are present somewhere are in the schemas.
  full_schemas = kproto.schemas(types.root, ext, types.options)
  for sid, name in names.items():
    s = {kd.unpct_text(k): v for k, v in c.schemas.get(sid, {}).items()
         if v != '_' and k != '__schema_metadata__'}
    expect_eq(set(s), seen.get(name, set()), f'the attributes of {name}')
    for k, v in s.items():
      expect_eq(kproto.read_schema(c, v, names), full_schemas[name][k],
                f'the schema of {name}.{k}')
  # Every message, list and dict has its own id.
  n = sum(_ids(v) for v in want)
  expect_eq(len(_all_ids(c, schema, items)), n, 'the number of ids')
  full_name = show(d, d.call('op', 'kd.proto.get_proto_full_name', r))[2]
  expect_eq(full_name,
            ['t' + kd.pct(types.root.full_name)] * len(messages), 'full names')
  return sum(map(kproto.size, want)) >= 5


def _ids(v):
  if isinstance(v, str):
    return 0
  kids = v[-1].values() if isinstance(v[-1], dict) else v[-1]
  return 1 + sum(map(_ids, kids))


def _all_ids(c, schema, items):
  out = set()

  def go(s, x):
    if s == 'sOBJECT' and x.startswith('o'):
      s = c.attrs[(x, '__schema__')]
    if not s.startswith('o') or x == '_':
      return
    out.add(x)
    m = {k: v for k, v in c.schemas.get(s, {}).items() if v != '_'}
    for y in c.lists.get(x, ()):
      go(m['__items__'], y)
    for y in c.dicts.get(x, {}).values():
      go(m['__values__'], y)
    for (_, name), y in c.by_id().get(x, ()):
      if name in m:
        go(m[name], y)

  for x in items:
    go(schema, x)
  return out


def lossless(types, v):
  """Whether converting the model value back gives all of it."""
  if isinstance(v, str):
    return True
  if v[0] == 'L':
    return '_' not in v[1] and all(lossless(types, x) for x in v[1])
  return all(lossless(types, x) for x in v[-1].values())


@check.clause(TAPES, n=400, thorough=4000, budget_s=60)
def roundtrip(case):
  d, t, types = setup(case)
  messages = [types.message() for _ in range(1 + t.pick(3))]
  paths, ext = types.paths()
  mode = t.pick(3)
  schema = '-'
  options = types.options
  if mode == 1:
    schema = d.call('p.schema', types.root.full_name, '-', *map(kd.pct, paths))
  elif mode == 2:
    schema = kpub.mk(d, 'sSCHEMA', (), ['sOBJECT']).reg
    options = {}
  vp.label(f'schema mode {mode}')
  if mode == 2 and types.options:
    return False
  if mode == 1:
    # The schema of a type is the same wherever the type is used.
    ext = _AllExt(types, types.root, kproto.schemas(types.root, ext, {}))
  want = [kproto.model(m, ext, options) for m in messages]
  r = convert(d, types, messages, paths, schema=schema)
  if mode == 1:
    got = values(d, r, ids_of(d, types))[4]
    expect_eq(got, want, 'the messages with the schema of their type')
  elif mode == 2:
    expect_eq([kproto.untyped(v) for v in values(d, r)[4]],
              [kproto.untyped(v) for v in want], 'the messages as objects')
  if not all(lossless(types, v) for v in want):
    expect(d.fails('p.to', r, types.root.full_name),
           'missing values in a repeated field')
    return False
  got = [full(types, m, types.options) for m in back(d, types, r)]
  expect_eq(got, want, 'the messages converted back')
  return sum(map(kproto.size, want)) >= 5


@check.clause(TAPES, n=500, thorough=5000, budget_s=60)
def schema_from_proto(case):
  d, t, types = setup(case)
  paths, ext = types.paths()
  names = ids_of(d, types)
  r = d.call('p.schema', types.root.full_name, '-', *map(kd.pct, paths))
  schema, shape, items, c, _ = values(d, r)
  expect_eq((schema, shape, [names.get(items[0])]),
            ('sSCHEMA', (), [types.root.full_name]), 'the schema')
  want = kproto.schemas(types.root, ext, types.options)
  n = 0
  for sid, name in names.items():
    s = {kd.unpct_text(k): kproto.read_schema(c, v, names)
         for k, v in c.schemas.get(sid, {}).items()
         if v != '_' and k != '__schema_metadata__'}
    expect_eq(s, want.get(name, {}), f'the attributes of {name}')
    n += len(s)
    if name not in want:
      continue
    x = kpub.mk(d, 'sSCHEMA', (), [sid], d.call('s.bag', r)).reg
    expect_eq(show(d, d.call('op', 'kd.proto.get_proto_full_name', x))[2],
              ['t' + kd.pct(name)], 'the full name')
    for at in [*want[name], 'absent']:
      f = types.pool.FindMessageTypeByName(name).fields_by_name.get(at)
      if at.startswith('('):
        f = types.pool.FindExtensionByName(at[1:-1])
      expected = '_'
      if f is not None and f.has_default_value:
        expected = kproto.token(f, f.default_value)
      got = d.call('op', 'kd.proto.get_proto_field_custom_default', x,
                   kpub.mk(d, 'sSTRING', (), ['t' + kd.pct(at)]).reg)
      expect_eq(show(d, got)[2], [expected], f'the default of {name}.{at}')
  return n >= 4


@check.clause(TAPES, n=200, thorough=2000, budget_s=60)
def itemids(case):
  """Child ids only depend on the id of the root and the path."""
  d, t, types = setup(case)
  n = 1 + t.pick(3)
  messages = [types.message() for _ in range(n)]
  roots = []
  for i in range(n):
    r = d.call('f.uuid', 'e', f'root{i}{t.pick(3)}', 0)
    roots.append(show(d, r)[2][0])
  schema = '-'
  if t.chance(3) and not types.options:
    schema = kpub.mk(d, 'sSCHEMA', (), ['sOBJECT']).reg

  def run(which):
    x = kpub.mk(d, 'sITEMID', ((len(which),),), [roots[i] for i in which]).reg
    r = convert(d, types, [messages[i] for i in which], ids=x, schema=schema)
    s, _, items, c, _ = values(d, r)
    expect_eq(items, [roots[i] for i in which], 'the root ids')
    out = []
    for i in items:
      out.append(_with_ids(c, s, i))
    return out, _all_ids(c, s, items)

  first, ids = run(range(n))
  want = [kproto.model(m, options=types.options) for m in messages]
  expect_eq(len(ids), sum(map(_ids, want)), 'the number of ids')
  which = [i for i in range(n) if t.chance(2)] or [n - 1]
  if t.chance(2):
    which.reverse()
  again, _ = run(which)
  expect_eq(again, [first[i] for i in which],
            'the ids when other messages are converted along')
  return sum(map(kproto.size, want)) >= 5


def _with_ids(c, s, x):
  if s == 'sOBJECT' and x.startswith('o'):
    s = c.attrs[(x, '__schema__')]
  if not s.startswith('o') or x == '_':
    return x
  m = {k: v for k, v in c.schemas.get(s, {}).items() if v != '_'}
  if '__items__' in m:
    return (x, [_with_ids(c, m['__items__'], y) for y in c.lists[x]])
  if '__keys__' in m:
    # The ids of map values depend on the order of the entries, which
    # protobuf does not define.
    return (x, sorted(k for k, y in c.dicts[x].items() if y != '_'))
  return (x, {name: _with_ids(c, m[name], y)
              for (_, name), y in c.by_id().get(x, ())
              if name in m and y != '_'})


WIDER = {'sINT32': ('sINT32', 'sINT64', 'sFLOAT32', 'sFLOAT64', 'sOBJECT'),
         'sINT64': ('sINT64', 'sFLOAT32', 'sFLOAT64', 'sOBJECT'),
         'sFLOAT32': ('sFLOAT32', 'sFLOAT64', 'sOBJECT'),
         'sFLOAT64': ('sFLOAT64', 'sOBJECT'),
         'sBOOLEAN': ('sBOOLEAN', 'sMASK', 'sOBJECT'),
         'sSTRING': ('sSTRING', 'sOBJECT'), 'sBYTES': ('sBYTES', 'sOBJECT')}


class Wanted:
  """A random schema for messages of a type, and its effect."""

  def __init__(self, d, t, types, bag):
    self.d, self.t, self.types, self.bag = d, t, types, bag
    self.open = {}

  def entity(self, desc, depth):
    """(schema token, fn from message to expected value)."""
    d, t = self.d, self.t
    if depth == 0 or t.chance(5):
      return 'sOBJECT', lambda m: kproto.untyped(kproto.model(m))
    r = d.call('f.schema', self.bag, 0)
    parts = []
    fields = [*desc.fields, *self.types.extensions[desc.full_name]]
    for f in fields:
      if t.chance(3):
        continue
      s, fn = self.field(f, depth)
      d.call('s.set', r, kd.pct(kproto.attr_name(f)),
             kpub.mk(d, 'sSCHEMA', (), [s], self.bag).reg, 0)
      parts.append((f, fn))
    if t.chance(3):
      d.call('s.set', r, 'unrelated', kpub.mk(d, 'sSCHEMA', (), ['sINT32']).reg,
             0)

    def value(m):
      out = {}
      for f, fn in parts:
        if kproto.has(m, f):
          v = fn(kproto.get(m, f))
          if v != '_':
            out[kproto.attr_name(f)] = v
      return ('E', None, out)
    return show(d, r)[2][0], value

  def scalar(self, f, key=False):
    t = self.t
    s = t.of(WIDER[kproto.dtype(f)])
    if key and s not in (
        'sINT32', 'sINT64', 'sBOOLEAN', 'sSTRING', 'sOBJECT'):
      s = kproto.dtype(f)

    def value(v):
      tok = kproto.token(f, v)
      if s == 'sMASK':
        return 'p' if v else '_'
      return tok if s == 'sOBJECT' else kcast.convert(tok, s)
    return s, value

  def field(self, f, depth):
    d, t = self.d, self.t
    if kproto.is_map(f):
      kf = f.message_type.fields_by_name['key']
      vf = f.message_type.fields_by_name['value']
      if t.chance(6):
        fn = ((lambda v: kproto.untyped(kproto.model(v))) if vf.message_type
              else lambda v: kproto.token(vf, v))
        return 'sOBJECT', lambda m: ('D', {kproto.token(kf, k): fn(v)
                                           for k, v in m.items()})
      ks, kfn = self.scalar(kf, True)
      vs, vfn = (self.entity(vf.message_type, depth - 1) if vf.message_type
                 else self.scalar(vf))
      r = d.call('f.dictschema', self.bag,
                 kpub.mk(d, 'sSCHEMA', (), [ks]).reg,
                 kpub.mk(d, 'sSCHEMA', (), [vs], self.bag).reg)

      def value(m):
        x = {kfn(k): vfn(v) for k, v in m.items()}
        return ('D', {k: v for k, v in x.items() if v != '_'})
      return show(d, r)[2][0], value
    if f.is_repeated:
      if t.chance(6):
        fn = ((lambda v: kproto.untyped(kproto.model(v))) if f.message_type
              else lambda v: kproto.token(f, v))
        return 'sOBJECT', lambda xs: ('L', [fn(x) for x in xs])
      s, fn = (self.entity(f.message_type, depth - 1) if f.message_type
               else self.scalar(f))
      r = d.call('f.listschema', self.bag,
                 kpub.mk(d, 'sSCHEMA', (), [s], self.bag).reg)
      return show(d, r)[2][0], lambda xs: ('L', [fn(x) for x in xs])
    if f.message_type:
      return self.entity(f.message_type, depth - 1)
    return self.scalar(f)


@check.clause(TAPES, n=600, thorough=6000, budget_s=60)
def explicit_schema(case):
  d, t, types = setup(case, options=False)
  bag = d.call('b.new')
  token, fn = Wanted(d, t, types, bag).entity(types.root, 3)
  messages = [types.message() for _ in range(t.pick(3))]
  schema = kpub.mk(d, 'sSCHEMA', (), [token], bag).reg
  target = t.of(('-', '-', bag, d.call('b.new')))
  r = convert(d, types, messages, bag=target, schema=schema)
  s, shape, items, c, got = values(d, r)
  expect_eq((s, shape), (token, ((len(messages),),)), 'the schema')
  want = [fn(m) for m in messages]
  expect_eq([kproto.untyped(v) for v in got], want, 'the messages')
  return sum(map(kproto.size, want)) >= 5


# --- values of other types --------------------------------------------------

KINDS = ('int32', 'int64', 'uint32', 'uint64', 'double', 'float', 'bool',
         'enum', 'string', 'bytes')


def plain(repeated):
  f = descriptor_pb2.FileDescriptorProto(name='y.proto', package='q',
                                         syntax='proto3')
  e = f.enum_type.add(name='Enum')
  e.value.add(name='ZERO', number=0)
  m = f.message_type.add(name='M')
  for i, k in enumerate(KINDS):
    x = m.field.add(name='f_' + k, number=i + 1)
    x.type = getattr(kproto.F, 'TYPE_' + k.upper())
    if k == 'enum':
      x.type_name = '.q.Enum'
    x.label = kproto.F.LABEL_REPEATED if repeated else kproto.F.LABEL_OPTIONAL
    if not repeated:
      x.proto3_optional = True
      x.oneof_index = i
      m.oneof_decl.add(name='_f_' + k)
  pool = descriptor_pool.DescriptorPool()
  pool.Add(f)
  return descriptor_pb2.FileDescriptorSet(file=[f]), pool.FindMessageTypeByName(
      'q.M')


def fits(tok, kind):
  """The value of the field, or None when it cannot hold the item."""
  t = tok[0]
  if t in 'il':
    v = int(tok[1:])
    if kind in ('int32', 'enum'):
      return v if -2**31 <= v < 2**31 else None
    if kind == 'int64':
      return v
    if kind == 'uint32':
      return v if 0 <= v < 2**32 else None
    if kind == 'uint64':
      if t == 'i' and v < 0:
        return None
      return v % 2**64
    if kind == 'float':
      return float(v) if abs(v) <= 2**24 else None
    if kind == 'double':
      return float(v) if abs(v) <= 2**53 else None
    return None
  if t == 'f':
    return kcast.num(tok) if kind == 'float' else None
  if t == 'd':
    return kcast.num(tok) if kind == 'double' else None
  if t == 'b':
    return tok == 'b1' if kind == 'bool' else None
  if t == 'p':
    return True if kind == 'bool' else None
  if t == 't':
    return kd.unpct_text(tok[1:]) if kind == 'string' else None
  if t == 'y':
    return kd.unpct(tok[1:]) if kind == 'bytes' else None
  return None


NUMS = [0, 1, -1, 5, 2**24, 2**24 + 1, -2**24, -2**24 - 1, 2**31 - 1, -2**31]
BIG = [2**31, 2**32 - 1, 2**32, -2**31 - 1, 2**53, 2**53 + 1, -2**53,
       -2**53 - 1, 2**63 - 1, -2**63]
ITEMS = ([f'i{n}' for n in NUMS] + [f'l{n}' for n in NUMS + BIG]
         + ['f3fc00000', 'f7f800000', 'd3ff8000000000000', 'd0000000000000000',
            'b0', 'b1', 'p', 't', 'tabc', 'y', 'y%ff', 'sINT32'])
OF_KIND = {k: [x for x in ITEMS if fits(x, k) is not None] for k in KINDS}


@st.composite
def _field_case(draw):
  kind = draw(st.sampled_from(KINDS))
  pool = st.sampled_from(ITEMS) if draw(st.integers(0, 3)) == 0 else (
      st.sampled_from(OF_KIND[kind]))
  n = draw(st.integers(1, 4))
  rows = [draw(st.lists(pool | st.just('_') if draw(st.integers(0, 4)) == 0
                        else pool, min_size=0, max_size=4)) for _ in range(n)]
  return kind, rows, draw(st.booleans()), draw(st.integers(0, 2))


def _schema(items):
  kinds = {x[0] for x in items if x != '_'}
  if len(kinds) == 1:
    return {'i': 'sINT32', 'l': 'sINT64', 'f': 'sFLOAT32', 'd': 'sFLOAT64',
            'b': 'sBOOLEAN', 'p': 'sMASK', 't': 'sSTRING', 'y': 'sBYTES',
            's': 'sSCHEMA'}[kinds.pop()]
  return 'sOBJECT'


@check.clause(_field_case(), n=500, thorough=5000, budget_s=60)
def fields(case):
  """Which item fits into which field, and as what."""
  kind, rows, repeated, style = case
  if kind == 'bool':  # Whether booleans take integers is not defined.
    rows = [['b1' if x[0] in 'il' else x for x in r] for r in rows]
  d = kd.driver()
  file_set, desc = plain(repeated)
  kproto.load(d, file_set)
  from google.protobuf import message_factory
  cls = message_factory.GetMessageClass(desc)
  bag = d.call('b.new')
  n = len(rows)
  if not repeated:
    rows = [r[:1] or ['_'] for r in rows]
  flat = [x for r in rows for x in r]
  schema = _schema(flat)
  if repeated:
    v = kpub.mk(d, schema, ((n,), tuple(map(len, rows))), flat).reg
    v = d.call('f.implode', bag, v, 1, '-')
  else:
    v = kpub.mk(d, schema, ((n,),), flat).reg
  name = 'f_' + kind
  x = (d.call('f.entity', bag, '-', 0, '-', 2, name, v, 'other', v) if style
       else d.call('f.obj', bag, '-', 2, name, v, 'other', v))
  bad = any(fits(i, kind) is None for i in flat if i != '_') or (
      repeated and '_' in flat)
  if bad:
    expect(d.fails('p.to', x, 'q.M'), f'{rows} stored in {kind} fields')
    return len(flat) > 1
  r = d.call('p.to', x, 'q.M').split()
  expect_eq(len(r), n, 'the number of messages')
  for row, b in zip(rows, r):
    m = cls.FromString(b'' if b == '.' else kd.unpct(b))
    got = list(getattr(m, name)) if repeated else (
        [getattr(m, name)] if m.HasField(name) else [])
    want = [fits(i, kind) for i in row if i != '_']
    expect_eq([repr(g) for g in got], [repr(w) for w in want],
              f'the {kind} field')
    for f in desc.fields:
      if f.name != name:
        expect(not (len(getattr(m, f.name)) if repeated
                    else m.HasField(f.name)), 'another field was set')
  return len(flat) > 1


@check.clause(TAPES, n=200, thorough=2000, budget_s=40)
def oneofs(case):
  """Two fields of a oneof cannot both be set; one is kept."""
  d, t, types = setup(case, options=False, oneof=True)
  by = {}
  for f in types.root.fields:
    o = f.containing_oneof
    if o is not None and not f.message_type:
      by.setdefault(o.name, []).append(f)
  groups = [v for v in by.values() if len(v) > 1]
  if not groups:
    return False
  fs = t.of(groups)
  rows = [[f.name for f in fs if t.chance(2)] for _ in range(3)]
  bag = d.call('b.new')
  cols = []
  model = [{} for _ in rows]
  for f in fs:
    tok = kproto.token(f, types._value(f))
    col = [tok if f.name in r else '_' for r in rows]
    for m, x in zip(model, col):
      if x != '_':
        m[f.name] = x
    cols += [kd.pct(f.name),
             kpub.mk(d, kproto.dtype(f), ((3,),), col).reg]
  x = d.call('f.entity', bag, '-', 0, '-', len(fs), *cols)
  if any(len(r) > 1 for r in rows):
    expect(d.fails('p.to', x, types.root.full_name), 'two fields of a oneof')
    return True
  for m, want in zip(back(d, types, x), model):
    got = {f.name: kproto.token(f, getattr(m, f.name)) for f in fs
           if m.HasField(f.name)}
    expect_eq(got, want, 'the fields of the oneof')
  return any(rows)


# --- descriptors of schemas -------------------------------------------------

KODA = ('sINT32', 'sINT64', 'sFLOAT32', 'sFLOAT64', 'sBOOLEAN', 'sMASK',
        'sSTRING', 'sBYTES')
SAMPLE = {'sINT32': ('i1', 'i-5'), 'sINT64': ('l7', 'l-9223372036854775808'),
          'sFLOAT32': ('f3fc00000', 'f7fc00000'), 'sFLOAT64':
          ('d3ff8000000000000', 'd0000000000000000'), 'sBOOLEAN': ('b0', 'b1'),
          'sMASK': ('p',), 'sSTRING': ('t', 'tabc'), 'sBYTES': ('y', 'y%ff')}
GOOD = ('a', 'b2', 'x_y', 'Foo', 'val', 'longer_name', 'q')
BAD = ('_a', '9x', 'a.b', '', 'x-y', 'é')


class Shape:
  """Random entity schemas: names -> 'sX', ('L', x), ('D', k, x), ('E', i)."""

  def __init__(self, d, t):
    self.d, self.t = d, t
    self.bag = d.call('b.new')
    self.n = 1 + t.pick(3)
    self.regs = [d.call('f.schema', self.bag, 0) for _ in range(self.n)]
    self.dropped = 0
    self.fields = []
    for i in range(self.n):
      at = {}
      for _ in range(1 + t.pick(4)):
        at[t.of(GOOD)] = self.kind()
      for k, v in at.items():
        self.set(i, k, self.token(v))
      if t.chance(3):
        self.set(i, t.of(BAD), 'sINT32')
      if t.chance(4):
        self.set(i, 'ignored', t.of(('sITEMID', 'sOBJECT', 'sNONE', 'sSCHEMA',
                                     'sEXPR')))
      if t.chance(4):
        self.set(i, 'ignored_dict', self.token(
            ('D', 'sBYTES', 'sINT32')))
      self.fields.append(at)

  def set(self, i, name, token):
    self.d.call('s.set', self.regs[i], kd.pct(name),
                kpub.mk(self.d, 'sSCHEMA', (), [token], self.bag).reg, 1)

  def kind(self):
    t = self.t
    k = t.pick(6)
    one = t.of(KODA) if t.chance(2) else ('E', t.pick(self.n))
    if k < 2:
      return t.of(KODA)
    if k == 2:
      return ('E', t.pick(self.n))
    if k == 3 or k == 4:
      return ('L', one)
    return ('D', t.of(('sINT32', 'sINT64', 'sBOOLEAN', 'sSTRING')), one)

  def token(self, v):
    d = self.d
    if isinstance(v, str):
      return v
    if v[0] == 'E':
      return show(d, self.regs[v[1]])[2][0]
    x = kpub.mk(d, 'sSCHEMA', (), [self.token(v[-1])], self.bag).reg
    if v[0] == 'L':
      r = d.call('f.listschema', self.bag, x)
    else:
      r = d.call('f.dictschema', self.bag,
                 kpub.mk(d, 'sSCHEMA', (), [v[1]]).reg, x)
    return show(d, r)[2][0]


WIRE = {'sINT32': 'INT32', 'sINT64': 'INT64', 'sFLOAT32': 'FLOAT',
        'sFLOAT64': 'DOUBLE', 'sBOOLEAN': 'BOOL', 'sMASK': 'BOOL',
        'sSTRING': 'STRING', 'sBYTES': 'BYTES'}


@check.clause(TAPES, n=300, thorough=3000, budget_s=60)
def descriptors(case):
  """The descriptor of a schema is valid and can hold its data."""
  d = kd.driver()
  t = kgraph.Tape(case)
  s = Shape(d, t)
  root = kpub.mk(d, 'sSCHEMA', (), [s.token(('E', 0))], s.bag).reg
  package = t.of(('-', 'p', 'a.b.c'))
  warnings, raw = d.call('p.descriptor', root, package, 'Root').split()
  f = descriptor_pb2.FileDescriptorProto.FromString(kd.unpct(raw))
  if package != '-':
    expect_eq(f.package, package, 'the package')
    expect_eq(f.name, 'f.proto', 'the name of the file')
  pool = descriptor_pool.DescriptorPool()
  pool.Add(f)
  name = f.package + ('.RootSchema' if package == '-' else '.Root')
  try:
    desc = pool.FindMessageTypeByName(name)
  except Exception as e:  # pylint: disable=broad-except
    raise vp.Violation(f'the descriptor is not valid: {e}') from None

  of = {}
  bare = [True]

  def same(m, i):
    if i in of:
      expect_eq(m.full_name, of[i].full_name, 'the message of the schema')
      return
    of[i] = m
    expect_eq({x.name for x in m.fields}, set(s.fields[i]),
              'the fields of the message')
    expect_eq(sorted(x.number for x in m.fields),
              list(range(1, len(m.fields) + 1)), 'the field numbers')
    for x in m.fields:
      field(x, s.fields[i][x.name])

  def one(x, v):
    if isinstance(v, str):
      expect_eq(x.type, getattr(kproto.F, 'TYPE_' + WIRE[v]), x.full_name)
    else:
      expect(x.message_type is not None, f'{x.full_name} is no message')
      same(x.message_type, v[1])

  def field(x, v):
    if isinstance(v, str) or v[0] == 'E':
      expect(not x.is_repeated and x.has_presence, f'{x.full_name}: presence')
      one(x, v)
    elif v[0] == 'L':
      expect(x.is_repeated and not kproto.is_map(x), f'{x.full_name}: label')
      one(x, v[1])
    else:
      expect(kproto.is_map(x), f'{x.full_name} is no map')
      one(x.message_type.fields_by_name['key'], v[1])
      one(x.message_type.fields_by_name['value'], v[2])

  same(desc, 0)
  # Data of the schema survives the message.
  file_set = descriptor_pb2.FileDescriptorSet(file=[f])
  kproto.load(d, file_set)

  def entity(i, depth):
    out = {}
    for k, v in s.fields[i].items():
      if not t.chance(3):
        x = value(v, depth)
        if x is not None:
          out[k] = x
    return ('E', i, out)

  def value(v, depth):
    if isinstance(v, str):
      return t.of(SAMPLE[v])
    if v[0] == 'E':
      return entity(v[1], depth - 1) if depth else None
    if depth == 0:
      return None
    if v[0] == 'L':
      xs = [value(v[1], depth - 1) for _ in range(t.pick(3))]
      xs = [x for x in xs if x is not None]
      return ('L', v, xs) if xs else None
    xs = {t.of(SAMPLE[v[1]]): value(v[2], depth - 1) for _ in range(t.pick(3))}
    xs = {k: x for k, x in xs.items() if x is not None}
    return ('D', v, xs) if xs else None

  def make(x):
    """The register of a scalar slice."""
    if isinstance(x, str):
      return x
    if x[0] == 'E':
      at = []
      for k, y in x[2].items():
        at += [k, scalar(s.fields[x[1]][k], y)]
      r = d.call('f.entityshaped', s.bag, '-', s.regs[x[1]], 0, '-',
                 len(at) // 2, *at)
    elif x[0] == 'L':
      items = [make(y) for y in x[2]]
      v = kpub.mk(d, s.token(x[1][1]), ((len(items),),), items, s.bag).reg
      r = d.call('f.implode', s.bag, v, 1, '-')
    else:
      ks = kpub.mk(d, x[1][1], ((len(x[2]),),), list(x[2])).reg
      vs = kpub.mk(d, s.token(x[1][2]), ((len(x[2]),),),
                   [make(y) for y in x[2].values()], s.bag).reg
      r = d.call('f.dictshaped', s.bag, '-', ks, vs, '-', '-', '-', '-')
    return show(d, r)[2][0]

  def scalar(v, x):
    return kpub.mk(d, s.token(v), (), [make(x)], s.bag).reg

  def plain_value(x):
    if isinstance(x, str):
      return x
    if x[0] == 'E':
      return ('E', None, {k: plain_value(y) for k, y in x[2].items()})
    if x[0] == 'L':
      return ('L', [plain_value(y) for y in x[2]])
    return ('D', {k: plain_value(y) for k, y in x[2].items()})

  rows = [entity(0, 3) for _ in range(1 + t.pick(3))]
  x = kpub.mk(d, s.token(('E', 0)), ((len(rows),),), [make(r) for r in rows],
              s.bag).reg
  # The data only has the attributes that the descriptor can express.
  r = d.call('p.to', x, name)
  schema = kpub.mk(d, 'sSCHEMA', (), [s.token(('E', 0))], s.bag).reg
  y = d.call('p.from', name, '-', '-', schema, 0, *r.split())
  got = [kproto.untyped(v) for v in values(d, y)[4]]
  want = [plain_value(r) for r in rows]
  expect_eq(got, want, 'the data converted to messages and back')
  return sum(map(kproto.size, want)) >= 5


# --- operators over linked messages -----------------------------------------


class Linked:
  """verif.Msg, which the driver has linked in."""

  def __init__(self, t):
    import os, subprocess, tempfile
    import kcore
    self.tape = t
    global _linked
    if _linked is None:
      with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, 'set')
        subprocess.run(
            ['/usr/bin/protoc', '-I' + os.path.join(kcore.KSHIM, 'proto'),
             '-I' + vp.REPO, '--include_imports', '--descriptor_set_out=' + out,
             'verif/msg.proto'], check=True)
        with open(out, 'rb') as f:
          _linked = descriptor_pb2.FileDescriptorSet.FromString(f.read())
    self.set = _linked
    self.pool = descriptor_pool.DescriptorPool()
    for f in self.set.file:
      self.pool.Add(f)
    self.desc = [self.pool.FindMessageTypeByName('verif.' + n)
                 for n in ('Msg', 'Leaf')]
    self.root = self.desc[0]
    self.extensions = {m.full_name: sorted(self.pool.FindAllExtensions(m),
                                           key=lambda x: x.full_name)
                       for m in self.desc}
    self.options = {'verif.Leaf.flag': 'MASK', 'verif.Msg.wide': 'INT64'}
    self.pkg = 'verif.'

  load = kproto.Types.load
  cls = kproto.Types.cls
  message = kproto.Types.message
  fill = kproto.Types.fill
  _set = kproto.Types._set
  paths = kproto.Types.paths

  def _value(self, f):
    if f.enum_type is not None:
      return self.tape.of((0, 1, 7, -3))
    return self.tape.of(kproto.values_of(f))


_linked = None


def strings(d, items):
  return kpub.mk(d, 'sSTRING', ((len(items),),),
                 ['t' + kd.pct(x) for x in items]).reg


def _no_negative_zero(v):
  if isinstance(v, str):
    return v[0] + v[1:].replace('8', '0') if v in (
        'd8000000000000000', 'f80000000') else v
  if isinstance(v[-1], dict):
    return (*v[:-1], {k: _no_negative_zero(x) for k, x in v[-1].items()})
  return (*v[:-1], [_no_negative_zero(x) for x in v[-1]])


@check.clause(st.tuples(TAPES, kpub.shape_specs(max_rank=2), st.booleans()),
              n=250, thorough=2500, budget_s=60)
def operators(case):
  tape, spec, as_json = case
  d = kd.driver()
  t = kgraph.Tape(tape)
  types = Linked(t)
  if as_json:
    # The installed protobuf does not read extensions from JSON.
    types.extensions = {k: [] for k in types.extensions}
  shape = kpub.shape_of(spec)
  n = kcast.size(shape)
  cells = []  # None, a message, or 'bad'
  for _ in range(n):
    k = t.pick(8)
    cells.append(None if k == 1 else 'bad' if k == 2 and t.chance(3)
                 else types.message(depth=2))
  paths, ext = types.paths()
  ext_arg = strings(d, paths) if paths or t.chance(2) else d.call('p.unspecified')

  def text(m):
    if m is None:
      return '_'
    if as_json:
      return 't' + kd.pct('{"i32": "x' if m == 'bad' else json_format.MessageToJson(
          m, preserving_proto_field_name=t.chance(2)))
    return 'y' + ('%0a%ff' if m == 'bad' else kd.pct(m.SerializePartialToString()))

  x = kpub.mk(d, 'sSTRING' if as_json else 'sBYTES', shape,
              [text(m) for m in cells]).reg
  path = kpub.mk(d, 'sSTRING', (), ['tverif%2eMsg']).reg
  unspecified = d.call('p.unspecified')
  fallback = unspecified
  if t.chance(2):
    fallback = kpub.mk(d, 'sNONE', (), ['_']).reg
  op = 'kd.proto._from_proto_json' if as_json else 'kd.proto._from_proto_bytes'
  args = ('op', op, x, path, ext_arg, unspecified, unspecified, fallback,
          'nd')
  if 'bad' in cells and fallback == unspecified:
    expect(d.fails(*args), 'an invalid message was accepted')
    return True
  r = d.call(*args)
  names = ids_of(d, types)
  schema, shape2, items, c, got = values(d, r, names)
  expect_eq(shape2, shape, 'the shape')
  if n == 0:
    return False

  def want_of(m):
    return '_' if m is None or m == 'bad' else kproto.model(
        m, ext, types.options)
  want = [want_of(m) for m in cells]
  expect_eq(got, want, 'the messages')
  # And back.
  op = 'kd.proto.to_proto_json' if as_json else 'kd.proto.to_proto_bytes'
  back_schema, shape3, out = show(d, d.call('op', op, r, path))
  expect_eq((back_schema, shape3),
            ('sSTRING' if as_json else 'sBYTES', shape), 'the result type')
  for w, o in zip(want, out):
    if w == '_':
      expect_eq(o, '_', 'a missing message')
    else:
      m = types.cls()()
      if as_json:
        json_format.Parse(kd.unpct_text(o[1:]), m,
                          descriptor_pool=types.pool)
      else:
        m.ParseFromString(kd.unpct(o[1:]))
      out_m = full(types, m, types.options)
      if as_json:  # JSON spells a negative zero as -0, which is an integer.
        out_m, w = _no_negative_zero(out_m), _no_negative_zero(w)
      expect_eq(out_m, w, 'the message')
  # Field access with the defaults of the message.
  f = t.of([*types.root.fields_by_name['leaf'].message_type.fields])
  if not any(isinstance(w, tuple) and f.name in w[2].get('leaf', (0, 0, {}))[2]
             for w in want):
    return sum(map(kproto.size, want)) >= 5
  leaf = d.call('s.get', r, 'leaf')
  got = show(d, d.call('op', 'kd.proto.get_proto_attr', leaf,
                            kpub.mk(d, 'sSTRING', (), ['t' + f.name]).reg))[2]
  for w, g in zip(want, got):
    if isinstance(w, tuple) and 'leaf' in w[2]:
      expected = w[2]['leaf'][2].get(f.name, '_')
      if expected == '_' and f.has_default_value:
        expected = kproto.token(f, f.default_value)
      expect_eq(g, expected, f'get_proto_attr of {f.name}')
  return sum(map(kproto.size, want)) >= 5


BAD_PATHS = ('a', 'a.b', '(p.none)', '(p', 'p)', '(a.(b))', '(a).b', '', '.',
             'a.', '(none.such).x')


@check.clause(st.tuples(TAPES, st.sampled_from(BAD_PATHS)), n=60,
              thorough=300, budget_s=30)
def bad_paths(case):
  tape, path = case
  d, t, types = setup(tape)
  m = types.message(depth=1)
  expect(d.fails('p.from', types.root.full_name, '-', '-', '-', 1,
                 kd.pct(path), pb(m)), f'the extension path {path!r}')
  expect(d.fails('p.schema', types.root.full_name, '-', kd.pct(path)),
         f'the extension path {path!r}')
  return True


if __name__ == '__main__':
  check.main()
