"""C28: clones of items."""
import kcast
import kd
import kgraph
import kpub
import vp
from vp import expect, expect_eq, st

check = vp.Check(
    'C28',
    'Graphs of entities, objects, lists and dicts with random links (cycles,'
    ' shared items, mixed types, removed values) over up to three layered bags;'
    ' slices of their items, with duplicates and missing items, are cloned to'
    ' new ids or to ids the caller provides (in any order, from any part of an'
    ' allocation). The clone must hold the facts of the original with the ids'
    ' replaced and nothing else. Non-trivial: at least three items are cloned'
    ' and ten facts copied.',
    ['arolla is replaced by the stand-in in shims/kcore.',
     'The content of bags is read with ExtractContent (C18-C21).'])


@check.setup
def _setup():
  kd.build('clone', ['kcore_public.cc', 'kcore_ops.cc'],
           groups=('internal', 'public', 'operators'))


def start(case, **kw):
  d = kd.driver()
  tape = kgraph.Tape(case)
  g = kgraph.Graph(d, tape, **kw)
  bag = g.layered()
  return d, tape, g, bag, g.root(bag)


def data(facts):
  return {f for f in facts if f[0] != 's'}


def same(got, want, what):
  expect(got == want, f'{what}: too much: {sorted(got - want)[:6]};'
                      f' lost: {sorted(want - got)[:6]}')


def implicit(d, i):
  return d.call('implicit', i)


def new_ids(d, tape, x):
  """(slice, items): ids the caller chooses for the items."""
  out = []
  pools = {}
  for i in x.items:
    if not kcast.is_id(i):
      out.append('_' if tape.pick(3) else None)
      continue
    k = kcast.kind(i)
    pools.setdefault(k, [0, None])[0] += 1
    out.append(k)
  for k, p in pools.items():
    n = p[0] + tape.pick(3)
    a = kd.Alloc(d, k, n)
    at = list(range(n))
    if tape.pick(2):  # Any order and any part.
      for j in range(n - 1, 0, -1):
        r = tape.pick(j + 1)
        at[j], at[r] = at[r], at[j]
    p[1] = [a[j] for j in at]
  for n, k in enumerate(out):
    if k in pools:
      out[n] = pools[k][1].pop()
    elif k is None:
      out[n] = kd.Alloc(d, 'e', 1)[0]
  return kpub.mk(d, 'sITEMID', x.shape, out).reg, out


def shallow_facts(d, c, schema, items, clones):
  """Content with the facts of the items repeated for the clones."""
  out = kgraph.Content()
  for i, n in zip(items, clones):
    if not kcast.is_id(i):
      continue
    s = schema
    if s == 'sOBJECT':
      s = c.attrs.get((i, '__schema__'))
      if s is None or s == '_':
        continue
      t = s
      if kcast.kind(s) == 'i':
        t = implicit(d, n)
        out.schemas[t] = dict(c.schemas.get(s, {}))
      out.attrs[(n, '__schema__')] = t
    m = {k: v for k, v in c.schemas.get(s, {}).items() if v != '_'}
    if '__items__' in m:
      if i in c.lists:
        out.lists[n] = c.lists[i]
    elif '__keys__' in m:
      if i in c.dicts:
        out.dicts[n] = c.dicts[i]
    else:
      for name in m:
        v = c.attrs.get((i, name))
        if v is not None:
          out.attrs[(n, name)] = v
  return out


def union(a, b):
  out = kgraph.Content()
  for c in (a, b):
    for p in ('attrs', 'lists', 'dicts', 'schemas'):
      getattr(out, p).update(getattr(c, p))
  return out


def result_items(x, clones):
  return [n if kcast.is_id(i) else i for i, n in zip(x.items, clones)]


@check.clause(kgraph.tapes, n=1200, thorough=30000, budget_s=40)
def clone(case):
  d, tape, g, bag, x = start(case)
  if x.schema == 'sSCHEMA':
    return False
  c = kgraph.content(d, bag)
  s = kpub.mk(d, 'sSCHEMA', (), [x.schema], bag).reg
  own = tape.pick(3)
  if own:
    ids, clones = new_ids(d, tape, x)
  else:
    ids = d.call('op', 'kd.core._new_ids_like', x.reg, 'nd')
    clones = kpub.show(d, ids).items
    real = [i for i in clones if kcast.is_id(i)]
    expect_eq(len(set(real)), len(real), 'new ids')
    for i, n in zip(x.items, clones):
      if kcast.is_id(i):
        expect(kcast.is_id(n) and kcast.kind(n) == kcast.kind(i),
               f'a new id for {i}: {n}')
        expect(n not in x.items, f'{n} is not new')
  want_items = result_items(x, clones)
  shallow = shallow_facts(d, c, x.schema, x.items, clones)
  y = d.call('op', 'kd.core._shallow_clone', x.reg, ids, s, 'nd')
  kpub.check(d, y, x.schema, x.shape, want_items, 'the shallow clone')
  ybag = d.call('s.bag', y)
  got = kgraph.content(d, ybag)
  same(data(got.flat()), data(shallow.flat()), f'shallow clone of {x}')
  own_schemas = {f's:{i}:{k}:{v}' for i, m in shallow.schemas.items()
                 for k, v in m.items()}
  expect(own_schemas <= got.flat(), f'shallow clone of {x}: the schemas lack'
         f' {sorted(own_schemas - got.flat())[:6]}')
  full = union(c, shallow)
  want = kgraph.reach(full, x.schema, want_items)
  y = d.call('op', 'kd.core._clone', x.reg, ids, s, 'nd')
  kpub.check(d, y, x.schema, x.shape, want_items, 'the clone')
  ybag = d.call('s.bag', y)
  same(kgraph.content(d, ybag).flat(), want.flat(), f'clone of {x}')
  expect_eq(d.call('b.mutable', ybag), '0', 'the bag of the clone is mutable')
  same(kgraph.content(d, bag).flat(), c.flat(), 'the source')
  vp.label('own ids' if own else 'new ids')
  return len(want_items) >= 3 and len(want.flat()) >= 10


class Mapping:
  """A bijection between ids, found by walking two graphs."""

  def __init__(self, d, a, b, keep_schemas=True):
    self.d = d
    self.a, self.b = a, b
    self.to = {}
    self.back = {}
    self.keep = keep_schemas
    self.open = 0
    # What holds plain ids: ('l' or 'k' or 'v', id) or (id, attribute).
    self.plain = set()

  def pair(self, i, n, what):
    if i in self.to or n in self.back:
      expect(self.to.get(i) == n and self.back.get(n) == i,
             f'{what}: {i} is copied to {self.to.get(i)} and to {n}')
      return False
    self.to[i] = n
    self.back[n] = i
    return True


def walk(m, schema, items, copies):
  todo = [(schema, i, n, 'root') for i, n in zip(items, copies)]
  seen = set()
  later = []
  while todo or later:
    if not todo:
      more = []
      for s, i, n in later:
        a, b = m.a.dicts.get(i, {}), m.b.dicts.get(n, {})
        ks = m.a.schemas[s]
        left = [k for k in a if k not in m.to and follows(m, ks['__keys__'], k)]
        rest = [k for k in b
                if k not in m.back and follows(m, ks['__keys__'], k)]
        if left:
          if len(left) == 1 and len(rest) == 1:
            todo.append((ks['__keys__'], left[0], rest[0], f'key of {i}'))
          more.append((s, i, n))
          continue
        for k, v in a.items():
          if v == '_':
            continue
          k2 = m.to.get(k, k) if follows(m, ks['__keys__'], k) else k
          expect(k2 in b, f'key {k} of {i} is not in the copy')
          todo.append((ks['__values__'], v, b[k2], f'{i}[{k}]'))
      if not todo:
        m.open = len(more)
        return
      later = more
    s, i, n, what = todo.pop()
    if i == '_':
      continue
    if not follows(m, s, i):
      expect(i == n, f'{what}: {i} became {n}')
      continue
    expect(n != '_' and kcast.is_id(n) and kcast.kind(n) == kcast.kind(i),
           f'{what}: {i} became {n}')
    expect(n != i, f'{what}: {i} is not copied')
    m.pair(i, n, what)
    if (s, i) in seen:
      continue
    seen.add((s, i))
    if s == 'sOBJECT':
      t = m.a.attrs.get((i, '__schema__'))
      if t is None or t == '_':
        continue
      t2 = m.b.attrs.get((n, '__schema__'))
      if kcast.kind(t) == 'i':
        expect_eq(t2, implicit(m.d, n), f'the schema of the copy of {i}')
        if t not in m.to:
          m.pair(t, t2, 'schema')
      else:
        expect_eq(t2, t, f'the schema of the copy of {i}')
      s = t
      if (s, i) in seen:
        continue
      seen.add((s, i))
    f = {k: v for k, v in m.a.schemas.get(s, {}).items() if v != '_'}
    if '__items__' in f:
      a, b = m.a.lists.get(i, []), m.b.lists.get(n, [])
      expect_eq(len(b), len(a), f'the size of the copy of list {i}')
      if f['__items__'] == 'sITEMID':
        m.plain.add(('l', i))
      todo += [(f['__items__'], p, q, f'{i}[]') for p, q in zip(a, b)]
    elif '__keys__' in f:
      if f['__values__'] == 'sITEMID':
        m.plain.add(('v', i))
      later.append((s, i, n))
    else:
      for name, t in f.items():
        if t == 'sITEMID':
          m.plain.add((i, name))
        v = m.a.attrs.get((i, name), '_')
        todo.append((t, v, m.b.attrs.get((n, name), '_'), f'{i}.{name}'))


def follows(m, s, i):
  """Whether an item of the schema is copied."""
  if not kcast.is_id(i) or kcast.is_schema_id(i):
    return False
  return s == 'sOBJECT' or kcast.is_id(s) and kcast.kind(s) != 'n'


def rename(c, m):
  """Facts with the items replaced, by what their schemas say."""
  out = kgraph.Content()

  def r(i, *of):
    return i if of in m.plain else m.to.get(i, i)
  for (i, n), v in c.attrs.items():
    out.attrs[(r(i), n)] = r(v, i, n)
  for i, v in c.lists.items():
    out.lists[r(i)] = [r(x, 'l', i) for x in v]
  for i, x in c.dicts.items():
    out.dicts[r(i)] = {r(k): r(v, 'v', i) for k, v in x.items()}
  for i, x in c.schemas.items():
    out.schemas[r(i)] = dict(x)
  return out


def visible(c):
  """Without removed values and empty lists."""
  return {f for f in c.flat(removed=False) if f[0] != 'l' or f[-1] != ':'}


@check.clause(kgraph.tapes, n=1000, thorough=30000, budget_s=40)
def deep_clone(case):
  d, tape, g, bag, x = start(case, special='ids')
  c = kgraph.content(d, bag)
  s = kpub.mk(d, 'sSCHEMA', (), [x.schema], bag).reg
  y = d.call('op', 'kd.core._deep_clone', x.reg, s, 'nd')
  v = kpub.show(d, y)
  expect_eq(v.schema, x.schema, 'the schema')
  expect_eq(v.shape, x.shape, 'the shape')
  ybag = d.call('s.bag', y)
  mine = kgraph.reach(c, x.schema, x.items)
  got = kgraph.content(d, ybag)
  m = Mapping(d, mine, got)
  expect_eq(len(v.items), len(x.items), 'the size')
  walk(m, x.schema, x.items, v.items)
  same(kgraph.content(d, bag).flat(), c.flat(), 'the source')
  expect_eq(d.call('b.mutable', ybag), '0', 'the bag of the clone is mutable')
  if m.plain:
    vp.label('plain ids')
  if m.open:
    vp.label('keys not matched')
    return False
  want = rename(mine, m)
  same(visible(got), visible(want), f'deep clone of {x}')
  expect(not set(m.to) & set(m.back), 'ids are both old and new')
  return len(m.to) >= 3 and len(want.flat()) >= 10


if __name__ == '__main__':
  check.main()
