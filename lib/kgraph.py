"""Random graphs of entities, objects, lists and dicts in bags of the driver.

`Graph` builds one from a tape of small numbers; `content` reads what bags hold
and `reach` finds the part of it that belongs to a slice.
"""
import random

import kcast
import kd
import kpub
from vp import st

PRIM = {'sINT32': ('i0', 'i7', 'i-3'), 'sSTRING': ('t', 'ta', 'tbc'),
        'sMASK': ('p', 'p', 'p'), 'sFLOAT32': ('f3f800000', 'f40000000'),
        'sBYTES': ('yx', 'y')}
NAMES = 'abc'
SIZES = (1, 2, 3, 8, 5, 4, 16)
# The numbers given, then random ones, then zeros.
tapes = st.tuples(st.lists(st.integers(0, 255), max_size=12),
                  st.integers(0, 1 << 24),
                  st.sampled_from((400, 200, 100, 50, 25, 12, 6, 3, 0)))


class Tape:

  def __init__(self, case):
    numbers, seed, more = case
    r = random.Random(seed)
    self.numbers = numbers + [r.randrange(256) for _ in range(more)]
    self.pos = 0

  def pick(self, n):
    """A number below n; 0 at the end of the tape."""
    self.pos += 1
    return self.numbers[self.pos - 1] % n if self.pos <= len(
        self.numbers) else 0

  def of(self, seq):
    return seq[self.pick(len(seq))]

  def chance(self, n):
    """True in one of n cases, never at the end of the tape."""
    return self.pick(n) == n - 1


class Graph:
  """types: dtype tokens, ('T', i), ('L', type), ('D', key, type)."""

  def __init__(self, d, tape, uu=True, special=True):
    self.d = d
    self.tape = t = tape
    self.bag = d.call('b.new')
    self.special = special
    self.count = 1 + t.pick(3)
    self.schemas = []
    for i in range(self.count):
      if uu and t.chance(4):
        s = d.call('f.uuschema', self.bag, f'seed{i}', 0)
      else:
        s = d.call('f.schema', self.bag, 0)
      self.schemas.append(s)
    self.fields = []
    for i in range(self.count):
      fields = {}
      for _ in range(1 + t.pick(3)):
        fields[t.of(NAMES)] = self.type(2)
      self.fields.append(fields)
      for k, v in sorted(fields.items()):
        d.call('s.set', self.schemas[i], k, self.schema(v), 0)
    # Groups of items: (type, [ids], slice).
    self.groups = []
    self.embedded = set()
    wanted = [('T', i) for i in range(self.count)]
    for x in wanted:
      if isinstance(x, tuple):
        for y in ([*self.fields[x[1]].values()] if x[0] == 'T' else x[1:]):
          if isinstance(y, tuple) and y not in wanted:
            wanted.append(y)
    wanted.append('sOBJECT')
    if t.chance(2):
      wanted.append(t.of(wanted))
    for x in wanted:
      self.add(x, t.of(SIZES))
    for g in range(len(self.groups)):
      self.fill(g)

  # --- types and schemas ---

  def type(self, depth):
    t = self.tape
    k = t.pick(10 if depth and self.special else 8 if depth else 4)
    if k < 2:
      return t.of(tuple(PRIM))
    if k == 2:
      return 'sOBJECT'
    if k < 5:
      return ('T', t.pick(self.count))
    if k == 5:
      return 'sOBJECT'
    if k == 6:
      return ('L', self.type(depth - 1))
    if k == 7:
      return ('D', t.of(('sINT32', 'sSTRING', 'sOBJECT',
                         ('T', t.pick(self.count)))), self.type(depth - 1))
    return 'sSCHEMA' if k == 8 and self.special != 'ids' else 'sITEMID'

  def schema(self, x):
    """A slice with the schema of a type."""
    d = self.d
    if isinstance(x, str):
      return kpub.mk(d, 'sSCHEMA', (), [x]).reg
    if x[0] == 'T':
      return self.schemas[x[1]]
    if x[0] == 'L':
      return d.call('f.listschema', self.bag, self.schema(x[1]))
    return d.call('f.dictschema', self.bag, self.schema(x[1]),
                  self.schema(x[2]))

  def token(self, x):
    return x if isinstance(x, str) else kpub.show(self.d,
                                                  self.schema(x)).items[0]

  # --- items ---

  def add(self, x, n):
    d = self.d
    shape = kcast.shape_tok(((n,),))
    if x == 'sOBJECT':
      s = d.call('f.objshaped', self.bag, shape, '-', 0)
    elif x[0] == 'T':
      s = d.call('f.entityshaped', self.bag, shape, self.schema(x), 0, '-', 0)
    elif x[0] == 'L':
      s = d.call('f.listshaped', self.bag, shape, '-', self.schema(x), '-',
                 '-')
    else:
      s = d.call('f.dictshaped', self.bag, shape, '-', '-', self.schema(x),
                 '-', '-', '-')
    if x != 'sOBJECT' and self.tape.pick(2):
      d.call('s.embed', s, 0)
      self.embedded.add(len(self.groups))
    self.groups.append((x, kpub.show(d, s).items, s))

  def items(self, x):
    """All items of a type."""
    return [i for y, ids, _ in self.groups if y == x for i in ids]

  def objects(self):
    return [i for g, (y, ids, _) in enumerate(self.groups)
            if y == 'sOBJECT' or g in self.embedded for i in ids]

  def value(self, x):
    t = self.tape
    if t.chance(5):
      return '_'
    if x == 'sOBJECT':
      if t.chance(3):
        return t.of(PRIM[t.of(tuple(PRIM))])
      return t.of(self.objects())
    if x == 'sSCHEMA':
      return t.of(('sINT32', self.token(('T', t.pick(self.count)))))
    if x == 'sITEMID':
      return t.of(self.groups[t.pick(len(self.groups))][1])
    if isinstance(x, str):
      return t.of(PRIM[x])
    return t.of(self.items(x))

  def values(self, x, n, shape=None):
    """A slice of values; the tape is repeated when it is long."""
    m = min(n, 6)
    some = [self.value(x) for _ in range(m)]
    items = [some[i % m] for i in range(n)]
    return kpub.mk(self.d, self.token(x), shape or ((n,),), items,
                   self.bag).reg, items

  def slice(self, x, items, bag=None):
    return kpub.mk(self.d, self.token(x), ((len(items),),), items,
                   bag or self.bag).reg

  def fill(self, g):
    x, ids, s = self.groups[g]
    d, t = self.d, self.tape
    n = len(ids)
    if x == 'sOBJECT':
      for name in NAMES:
        if t.chance(4):
          continue
        # Different types for parts of the group.
        at = t.pick(n + 1) if t.chance(3) else 0
        step = 1 + t.pick(2)
        part = set(range(at, n, step))
        rest = [i for i in range(n) if i not in part]
        for p in (sorted(part), rest):
          if not p or p == rest and t.chance(2):
            continue
          y = t.of(tuple(PRIM) + ('sOBJECT', *(z for z, _, _ in self.groups)))
          v, _ = self.values(y, len(p))
          if len(p) == n:
            d.call('s.set', s, name, v, 0)
          else:
            d.call('s.set', self.slice('sOBJECT', [ids[i] for i in p]), name,
                   v, 0)
    elif x[0] == 'T':
      for name, y in sorted(self.fields[x[1]].items()):
        if t.chance(6):
          continue
        v, _ = self.values(y, n)
        d.call('s.set', s, name, v, 0)
    elif x[0] == 'L':
      sizes = tuple(t.pick(3) for _ in range(n))
      if sum(sizes) or t.chance(2):
        v, _ = self.values(x[1], sum(sizes), ((n,), sizes)) if sum(
            sizes) else (kpub.mk(d, self.token(x[1]), ((n,), sizes), []).reg,
                         [])
        d.call('s.lappend', s, v)
    else:
      sizes = tuple(t.pick(3) for _ in range(n))
      keys = []
      for i in range(sum(sizes)):
        k = '_'
        while k == '_' or k[0] in 'f' or (x[1] == 'sOBJECT' and k[0] == 'f'):
          k = self.value(x[1])
        keys.append(k)
      if keys:
        shape = ((n,), sizes)
        k = kpub.mk(d, self.token(x[1]), shape, keys, self.bag).reg
        v, _ = self.values(x[2], len(keys), shape)
        d.call('s.dset', s, k, v)

  # --- changes and roots ---

  def layered(self):
    """The bag under some updates; a frozen bag."""
    d, t = self.d, self.tape
    bag = d.call('b.freeze', self.bag)
    for _ in range(t.pick(3)):
      g = t.pick(len(self.groups))
      x, ids, s = self.groups[g]
      if x != 'sOBJECT' and x[0] != 'T':
        continue
      part = [i for i in ids if t.pick(3)] or ids
      if x == 'sOBJECT':
        name, y = t.of(NAMES), t.of(tuple(PRIM))
      else:
        name, y = t.of(sorted(self.fields[x[1]].items()))
      v, _ = self.values(y, len(part))
      at = kpub.mk(d, self.token(x), ((len(part),),), part, bag).reg
      name = kpub.mk(d, 'sSTRING', (), ['t' + name]).reg
      up = d.call('op', 'kd.core.attr', at, name,
                  d.call('s.withbag', v, bag),
                  kpub.mk(d, 'sBOOLEAN', (), ['b0']).reg)
      bag = d.call('b.fallbacks', d.call('b.freeze', up), bag)
    return bag

  def root(self, bag):
    """(slice, schema token, items, shape) of something in the graph."""
    d, t = self.d, self.tape
    g = t.pick(len(self.groups))
    x, ids, _ = self.groups[g]
    how = t.pick(6)
    if how == 5:
      x, ids = 'sOBJECT', self.objects()
    if how == 4 and g in self.embedded:
      x = 'sOBJECT'
    items = list(ids)
    if how in (1, 2, 3):  # Some of them, in any order, or none.
      items = [t.of(ids + ['_']) for _ in range(1 + t.pick(4))]
    if t.chance(5):
      return self.at(x, items[:1], (), bag)
    if len(items) > 1 and t.chance(4):
      k = t.pick(len(items))
      return self.at(x, items, ((3,), (k, 0, len(items) - k)), bag)
    return self.at(x, items, ((len(items),),), bag)

  def at(self, x, items, shape, bag):
    schema = self.token(x)
    return kpub.mk(self.d, schema, shape, items, bag)


# --- content ----------------------------------------------------------------


class Content:
  """attrs: (id, name) -> token ('_' removed); lists; dicts; schemas."""

  def __init__(self):
    self.attrs = {}
    self.lists = {}
    self.dicts = {}
    self.schemas = {}

  def by_id(self):
    """id -> [((id, name), value)] of the attributes."""
    if not hasattr(self, '_by_id'):
      self._by_id = {}
      for k, v in self.attrs.items():
        self._by_id.setdefault(k[0], []).append((k, v))
    return self._by_id

  def flat(self, removed=True):
    """As one set of facts."""
    out = set()
    for (i, n), v in self.attrs.items():
      if removed or v != '_':
        out.add(f'a:{i}:{n}:{v}')
    for i, v in self.lists.items():
      out.add(f'l:{i}:{",".join(v)}')
    for i, m in self.dicts.items():
      out |= {f'd:{i}:{k}:{v}' for k, v in m.items() if removed or v != '_'}
    for i, m in self.schemas.items():
      out |= {f's:{i}:{k}:{v}' for k, v in m.items() if removed or v != '_'}
    return out


def _one(dump):
  c = Content()
  for w in dump.split():
    k, i, *rest = w.split(':')
    if k == 'l':
      c.lists[i] = kd.parse_items(rest[0])
    elif kcast.is_schema_id(i):
      name = rest[0][1:] if k == 'd' else rest[0]
      c.schemas.setdefault(i, {})[name] = rest[1]
    elif k == 'd':
      c.dicts.setdefault(i, {})[rest[0]] = rest[1]
    else:
      c.attrs[(i, rest[0])] = rest[1]
  return c


def content(d, bag):
  """What a bag holds, its fallbacks included."""
  total = Content()
  for part in d.call('b.dump', bag).split('|'):
    c = _one(part)
    for k, v in c.attrs.items():
      total.attrs.setdefault(k, v)
    for k, v in c.lists.items():
      total.lists.setdefault(k, v)
    for into, of in ((total.dicts, c.dicts), (total.schemas, c.schemas)):
      for i, m in of.items():
        for k, v in m.items():
          into.setdefault(i, {}).setdefault(k, v)
  return total


def reach(c, schema, items, depth=-1):
  """The part of the content that belongs to items of the schema."""
  out = Content()
  out.conflict = False  # Some item is reached with two entity schemas.
  by = {}
  seen = set()
  todo = [(schema, i) for i in items] + [(schema, '_')]

  def add_schema(s):
    if s in out.schemas or not kcast.is_id(s) or kcast.kind(s) == 'n':
      return
    out.schemas[s] = m = dict(c.schemas.get(s, {}))
    for v in m.values():
      if kcast.is_id(v):
        add_schema(v)

  while todo:
    s, i = todo.pop()
    if (s, i) in seen:
      continue
    seen.add((s, i))
    if kcast.is_id(s):
      add_schema(s)
    if i == '_' or not kcast.is_id(i):
      continue
    if s == 'sSCHEMA':
      add_schema(i)
    elif s == 'sOBJECT':
      o = c.attrs.get((i, '__schema__'))
      if o is not None:
        out.attrs[(i, '__schema__')] = o
        if o != '_':
          todo.append((o, i))
    elif kcast.is_id(s) and kcast.kind(s) != 'n':
      if by.setdefault(i, s) != s:
        out.conflict = True
      m = {k: v for k, v in c.schemas.get(s, {}).items() if v != '_'}
      if '__items__' in m:
        if i in c.lists:
          out.lists[i] = c.lists[i]
          todo += [(m['__items__'], v) for v in c.lists[i]]
      elif '__keys__' in m:
        for k, v in c.dicts.get(i, {}).items():
          out.dicts.setdefault(i, {})[k] = v
          todo += [(m['__keys__'], k), (m['__values__'], v)]
      else:
        for name, t in m.items():
          v = c.attrs.get((i, name))
          if v is not None:
            out.attrs[(i, name)] = v
            todo.append((t, v))
  return out
