"""Random protocol buffer types and messages, and what they are in Koda."""
import math
import struct

from google.protobuf import descriptor_pb2
from google.protobuf import descriptor_pool
from google.protobuf import message_factory

import kd

F = descriptor_pb2.FieldDescriptorProto
NAMES = ('a', 'b', 'val', 'key', 'x_y', '_z', 'f9', 'items', 'self', 'Big')
SCALARS = ('int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32',
           'fixed64', 'sfixed32', 'sfixed64', 'double', 'float', 'bool',
           'string', 'bytes')
KEYS = tuple(s for s in SCALARS if s not in ('double', 'float', 'bytes'))
ENUM = {'ZERO': 0, 'ONE': 1, 'FIVE': 5, 'MINUS': -2}
S32 = (0, 1, -1, 7, 2**31 - 1, -2**31, 1000)
S64 = (0, 1, -1, 7, 2**63 - 1, -2**63, 2**31, -2**31 - 1, 2**53 + 1)
U32 = (0, 1, 7, 2**32 - 1, 2**31)
U64 = (0, 1, 7, 2**64 - 1, 2**63, 2**63 - 1, 2**32)
DBL = (0.0, -0.0, 1.5, math.inf, -math.inf, math.nan, 1e300, 5e-324, 0.1)
FLT = tuple(struct.unpack('<f', struct.pack('<f', x))[0] for x in
            (0.0, -0.0, 1.5, math.inf, math.nan, 3e38, 1e-45, 0.1))
STR = ('', 'a', 'hello world', 'é\0x', '"\\', '日本', '😀', 'true')
BYT = (b'', b'a', b'\xff\x00\x80', b'hello', b'"\\')


def values_of(f):
  """Values to choose from for a field descriptor (or a type's number)."""
  t = f.type
  name = F.Type.Name(t)[5:].lower()
  if name in ('int32', 'sint32', 'sfixed32'):
    return S32
  if name in ('int64', 'sint64', 'sfixed64'):
    return S64
  if name in ('uint32', 'fixed32'):
    return U32
  if name in ('uint64', 'fixed64'):
    return U64
  return {'double': DBL, 'float': FLT, 'bool': (True, False), 'string': STR,
          'bytes': BYT, 'enum': tuple(ENUM.values())}[name]


_DEFAULTS = {'int32': ('-7', '2147483647'), 'int64': ('-9', '9223372036854775807'),
             'uint32': ('4294967295', '3'), 'uint64': ('18446744073709551615', '3'),
             'double': ('1.5', 'inf', 'nan', '-0'), 'float': ('2.5', '-inf'),
             'bool': ('true', 'false'), 'string': ('', 'dflt é'),
             'bytes': ('', 'a\\377\\000'), 'enum': ('FIVE', 'ZERO')}


class Types:
  """A file of messages; options: full name of a field -> annotation."""

  def __init__(self, tape, options=True, extensions=True, syntax=None,
               package=None, oneof=False):
    t = self.tape = tape
    self.syntax = syntax or t.of(('proto2', 'proto3'))
    f = self.file = descriptor_pb2.FileDescriptorProto()
    f.name = 'x.proto'
    f.package = package if package is not None else t.of(('p', 'a.b', ''))
    f.syntax = self.syntax
    self.pkg = f.package + '.' if f.package else ''
    self.options = {}
    self.with_options = options
    e = f.enum_type.add(name='Enum')
    for k, v in ENUM.items():
      e.value.add(name=k, number=v)
    self.count = 1 + t.pick(3)
    for i in range(self.count):
      m = f.message_type.add(name=f'M{i}')
      used = set()
      oneof = oneof and i == 0
      for _ in range(4 if oneof else 1 + t.pick(5)):
        name = t.of(NAMES)
        if name not in used:
          used.add(name)
          self._field(m, m.field.add(name=name, number=len(used) * 3),
                      self.pkg + m.name + '.' + name,
                      scalar=oneof and len(used) < 4)
      single = [x for x in m.field if x.label == F.LABEL_OPTIONAL]
      if single and (oneof or t.chance(3)):
        m.oneof_decl.add(name='choice')
        # The fields of a oneof have to follow each other.
        at = list(m.field).index(single[0])
        for x in m.field[at:at + 1 + (3 if oneof else t.pick(4))]:
          if x.label != F.LABEL_OPTIONAL:
            break
          x.oneof_index = 0
      for x in single:
        if (self.syntax == 'proto3' and not x.HasField('oneof_index')
            and x.type != F.TYPE_MESSAGE and t.chance(3)):
          x.proto3_optional = True
          x.oneof_index = len(m.oneof_decl)
          m.oneof_decl.add(name='_' + x.name)
      if self.syntax == 'proto2' and extensions:
        m.extension_range.add(start=100, end=200)
    if self.syntax == 'proto2' and extensions:
      for i in range(t.pick(4)):
        scope, full = f, self.pkg
        if t.chance(3):
          scope = f.message_type[t.pick(self.count)]
          full += scope.name + '.'
        x = scope.extension.add(name=f'ext{i}', number=100 + i)
        x.extendee = f'.{self.pkg}M{t.pick(self.count)}'
        self._field(None, x, full + x.name)
    self.pool = descriptor_pool.DescriptorPool()
    self.pool.Add(f)
    self.set = descriptor_pb2.FileDescriptorSet(file=[f])
    self.desc = [self.pool.FindMessageTypeByName(f'{self.pkg}M{i}')
                 for i in range(self.count)]
    self.root = self.desc[0]
    self.extensions = {}
    for m in self.desc:
      self.extensions[m.full_name] = []
    for x in [*f.extension, *(x for m in f.message_type for x in m.extension)]:
      self.extensions[x.extendee[1:]].append(None)
    for m in self.desc:
      self.extensions[m.full_name] = sorted(
          self.pool.FindAllExtensions(m), key=lambda x: x.full_name)

  def _field(self, m, x, full, scalar=False):
    t = self.tape
    x.label = F.LABEL_OPTIONAL
    kind = 0 if scalar else t.pick(10)
    if kind < 4 or (kind == 9 and m is None):
      self._scalar(x, t.of(SCALARS + ('enum',)))
    elif kind < 6:
      x.label = F.LABEL_REPEATED
      self._scalar(x, t.of(SCALARS + ('enum',)))
      if x.type not in (F.TYPE_STRING, F.TYPE_BYTES) and t.chance(3):
        x.options.packed = t.chance(2)
    elif kind == 6 or kind == 7:
      x.type = F.TYPE_MESSAGE
      x.type_name = f'.{self.pkg}M{t.pick(self.count)}'
    elif kind == 8:
      x.label = F.LABEL_REPEATED
      x.type = F.TYPE_MESSAGE
      x.type_name = f'.{self.pkg}M{t.pick(self.count)}'
    else:
      e = m.nested_type.add(
          name=''.join(w.capitalize() if w[:1].islower() else w
                       for w in x.name.split('_')) + 'Entry')
      e.options.map_entry = True
      k = e.field.add(name='key', number=1, label=F.LABEL_OPTIONAL)
      self._scalar(k, t.of(KEYS))
      v = e.field.add(name='value', number=2, label=F.LABEL_OPTIONAL)
      if t.chance(2):
        v.type = F.TYPE_MESSAGE
        v.type_name = f'.{self.pkg}M{t.pick(self.count)}'
      else:
        self._scalar(v, t.of(SCALARS + ('enum',)))
      x.label = F.LABEL_REPEATED
      x.type = F.TYPE_MESSAGE
      x.type_name = f'.{full.rpartition(".")[0]}.{e.name}'
      return
    name = F.Type.Name(x.type)[5:].lower()
    default = False
    if (self.syntax == 'proto2' and x.label == F.LABEL_OPTIONAL
        and x.type != F.TYPE_MESSAGE and t.chance(3)):
      default = True
      x.default_value = t.of(_DEFAULTS.get(name) or ('11', '0'))
    if self.with_options and x.type != F.TYPE_MESSAGE and t.chance(4):
      if x.type == F.TYPE_BOOL and not default:
        self._option(x, full, 'MASK')
      elif name not in ('bool', 'double', 'float', 'string', 'bytes'):
        self._option(x, full, t.of(('INT64', 'INT32')))

  def _option(self, x, full, what):
    self.options[full] = what
    n = {'MASK': 5, 'INT32': 2, 'INT64': 3}[what]
    # koladata.options (535815045) { schema: n }
    tag = 535815045 << 3 | 2
    raw = b''
    while tag >= 128:
      raw += bytes([tag & 127 | 128])
      tag >>= 7
    raw += bytes([tag]) + bytes([2, 8, n])
    x.options.MergeFromString(raw)

  def _scalar(self, x, name):
    x.type = getattr(F, 'TYPE_' + name.upper())
    if name == 'enum':
      x.type_name = f'.{self.pkg}Enum'

  def load(self, d):
    load(d, self.set)

  def cls(self, desc=None):
    return message_factory.GetMessageClass(desc or self.root)

  # --- messages ---

  def message(self, desc=None, depth=3):
    m = self.cls(desc)()
    self.fill(m, depth)
    return m

  def fill(self, m, depth):
    t = self.tape
    desc = m.DESCRIPTOR
    for f in [*desc.fields, *self.extensions.get(desc.full_name, ())]:
      if t.chance(3):
        continue
      self._set(m, f, depth)

  def _set(self, m, f, depth):
    t = self.tape
    if is_map(f):
      target = getattr(m, f.name)
      kf = f.message_type.fields_by_name['key']
      vf = f.message_type.fields_by_name['value']
      for _ in range(t.pick(3 if depth else 1)):
        k = t.of(values_of(kf))
        if vf.message_type:
          self.fill(target[k], depth - 1)
        else:
          target[k] = self._value(vf)
    elif f.is_repeated:
      target = m.Extensions[f] if f.is_extension else getattr(m, f.name)
      for _ in range(t.pick(4 if depth else 1)):
        if f.message_type:
          self.fill(target.add(), depth - 1)
        else:
          target.append(self._value(f))
    elif f.message_type:
      if depth:
        target = m.Extensions[f] if f.is_extension else getattr(m, f.name)
        target.SetInParent()
        self.fill(target, depth - 1)
    elif f.is_extension:
      m.Extensions[f] = self._value(f)
    else:
      setattr(m, f.name, self._value(f))

  def _value(self, f):
    v = self.tape.of(values_of(f))
    if self.options.get(f.full_name) == 'INT32' and not -2**31 <= v < 2**31:
      return 3
    return v

  # --- extensions to convert ---

  def paths(self):
    """Random extension paths and the ExtMap that they stand for."""
    t = self.tape
    out = []
    root = ExtMap()
    for _ in range(t.pick(5)):
      desc, at, path = self.root, root, []
      for _ in range(t.pick(3)):
        steps = [f for f in [*desc.fields, *self.extensions[desc.full_name]]
                 if f.message_type and (
                     not is_map(f)
                     or f.message_type.fields_by_name['value'].message_type)]
        if not steps:
          break
        maps = [f for f in steps if is_map(f)]
        f = t.of(maps if maps and t.chance(2) else steps)
        path.append(attr_name(f))
        desc = f.message_type
        if is_map(f):
          path.append('values')
          desc = desc.fields_by_name['value'].message_type
      exts = self.extensions[desc.full_name]
      if exts:
        f = t.of(exts)
        for p in path:
          at = at.sub.setdefault(p, ExtMap())
        at.fields[attr_name(f)] = f
        out.append('.'.join([*path, attr_name(f)]))
    return out, root


class ExtMap:

  def __init__(self):
    self.fields = {}
    self.sub = {}


NO_EXT = ExtMap()


def load(d, file_set):
  d.call('p.pool', kd.pct(file_set.SerializeToString()))


def is_map(f):
  return bool(f.message_type and f.message_type.GetOptions().map_entry)


def attr_name(f):
  return f'({f.full_name})' if f.is_extension else f.name


def fields(desc, ext):
  return {**{f.name: f for f in desc.fields}, **ext.fields}


def child(ext, f):
  c = ext.sub.get(attr_name(f), NO_EXT)
  return c.sub.get('values', NO_EXT) if is_map(f) else c


def get(m, f):
  return m.Extensions[f] if f.is_extension else getattr(m, f.name)


def has(m, f):
  if f.is_repeated:
    return len(get(m, f)) > 0
  if not f.has_presence:
    return True
  return m.HasExtension(f) if f.is_extension else m.HasField(f.name)


def token(f, v, option=None):
  c = f.cpp_type
  if c in (f.CPPTYPE_INT32, f.CPPTYPE_ENUM):
    return f'l{v}' if option == 'INT64' else f'i{v}'
  if c in (f.CPPTYPE_INT64, f.CPPTYPE_UINT32, f.CPPTYPE_UINT64):
    if v >= 2**63:
      v -= 2**64
    return f'i{v}' if option == 'INT32' else f'l{v}'
  if c == f.CPPTYPE_DOUBLE:
    if v != v:
      return 'd7ff8000000000000'
    return 'd%016x' % struct.unpack('<Q', struct.pack('<d', v))[0]
  if c == f.CPPTYPE_FLOAT:
    if v != v:
      return 'f7fc00000'
    return 'f%08x' % struct.unpack('<I', struct.pack('<f', v))[0]
  if c == f.CPPTYPE_BOOL:
    if option == 'MASK':
      return 'p' if v else '_'
    return 'b1' if v else 'b0'
  if f.type == f.TYPE_BYTES:
    return 'y' + kd.pct(v)
  return 't' + kd.pct(v)


def dtype(f, option=None):
  if option:
    return 's' + option
  c = f.cpp_type
  if c in (f.CPPTYPE_INT32, f.CPPTYPE_ENUM):
    return 'sINT32'
  if c in (f.CPPTYPE_INT64, f.CPPTYPE_UINT32, f.CPPTYPE_UINT64):
    return 'sINT64'
  return {f.CPPTYPE_DOUBLE: 'sFLOAT64', f.CPPTYPE_FLOAT: 'sFLOAT32',
          f.CPPTYPE_BOOL: 'sBOOLEAN'}.get(c) or (
              'sBYTES' if f.type == f.TYPE_BYTES else 'sSTRING')


def model(m, ext=NO_EXT, options=None, seen=None):
  """('E', full name, {attribute: value}); seen: full name -> attributes."""
  options = options or {}
  desc = m.DESCRIPTOR
  out = {}
  names = set()
  if seen is not None:
    names = seen.setdefault(desc.full_name, set())
  for name, f in fields(desc, ext).items():
    if not has(m, f):
      continue
    names.add(name)
    v = get(m, f)
    o = options.get(f.full_name)
    sub = child(ext, f)
    if is_map(f):
      kf = f.message_type.fields_by_name['key']
      vf = f.message_type.fields_by_name['value']
      out[name] = ('D', {token(kf, k): model(x, sub, options, seen)
                         if vf.message_type else token(vf, x)
                         for k, x in v.items()})
    elif f.is_repeated:
      out[name] = ('L', [model(x, sub, options, seen) if f.message_type
                         else token(f, x, o) for x in v])
    elif f.message_type:
      out[name] = model(v, sub, options, seen)
    else:
      out[name] = token(f, v, o)
  return ('E', desc.full_name, {k: v for k, v in out.items() if v != '_'})


def size(v):
  """Number of nodes of a model value."""
  if isinstance(v, str):
    return 1
  kids = v[-1].values() if isinstance(v[-1], dict) else v[-1]
  return 1 + sum(size(k) for k in kids)


def field_schema(f, options):
  """Token, ('E', name), ('L', x) or ('D', key, x)."""
  if is_map(f):
    vf = f.message_type.fields_by_name['value']
    return ('D', dtype(f.message_type.fields_by_name['key']),
            ('E', vf.message_type.full_name) if vf.message_type else dtype(vf))
  x = (('E', f.message_type.full_name) if f.message_type
       else dtype(f, options.get(f.full_name)))
  return ('L', x) if f.is_repeated else x


def schemas(desc, ext, options):
  """full name -> {attribute: field schema}, for all reachable messages."""
  out = {}
  done = set()
  todo = [(desc, ext)]
  while todo:
    m, e = todo.pop()
    if (m.full_name, id(e)) in done:
      continue
    done.add((m.full_name, id(e)))
    at = out.setdefault(m.full_name, {})
    for name, f in fields(m, e).items():
      at[name] = field_schema(f, options)
      if f.message_type:
        x = f.message_type
        if is_map(f):
          x = x.fields_by_name['value'].message_type
        if x is not None:
          todo.append((x, child(e, f)))
  return out


# --- what is in a bag -------------------------------------------------------


def read(c, schema, item, names=None):
  """The value in the form of model(); names: schema id -> full name."""
  if schema == 'sOBJECT' and item.startswith('o'):
    schema = c.attrs[(item, '__schema__')]
  if not schema.startswith('o') or item == '_':
    return item
  s = {kd.unpct_text(k): v for k, v in c.schemas.get(schema, {}).items()
       if v != '_'}
  if '__items__' in s:
    return ('L', [read(c, s['__items__'], x, names)
                  for x in c.lists.get(item, ())])
  if '__keys__' in s:
    return ('D', {read(c, s['__keys__'], k, names):
                  read(c, s['__values__'], v, names)
                  for k, v in c.dicts.get(item, {}).items() if v != '_'})
  out = {}
  for (i, name), v in c.by_id().get(item, ()):
    name = kd.unpct_text(name)
    if name in s and v != '_':
      out[name] = read(c, s[name], v, names)
    elif name not in ('__schema__',) and v != '_':
      out['?' + name] = v
  return ('E', names.get(schema, schema) if names else None, out)


def read_schema(c, s, names):
  if not s.startswith('o'):
    return s
  m = {k: v for k, v in c.schemas.get(s, {}).items() if v != '_'}
  if '__items__' in m:
    return ('L', read_schema(c, m['__items__'], names))
  if '__keys__' in m:
    return ('D', m['__keys__'], read_schema(c, m['__values__'], names))
  return ('E', names.get(s, s))


def untyped(v):
  """A model value without the names of the messages."""
  if isinstance(v, str):
    return v
  if v[0] == 'E':
    return ('E', None, {k: untyped(x) for k, x in v[2].items()})
  if v[0] == 'D':
    return ('D', {k: untyped(x) for k, x in v[1].items()})
  return ('L', [untyped(x) for x in v[1]])
