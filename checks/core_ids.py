"""C31: item ids and uuids."""
import kcast
import kd
import kgraph
import kpub
import vp
from vp import expect, expect_eq, st

check = vp.Check(
    'C31',
    'Field values of all primitive types (missing, mixed, items), names and'
    ' seeds that are easily confused, broadcast shapes, and two processes;'
    ' jagged groups; allocation sizes; ids of all kinds. Equal arguments must'
    ' give equal uuids, different ones different uuids (a collision by chance'
    ' is out of reach), and the base62 text is compared with Python.'
    ' Non-trivial: uuids of at least two different argument tuples, or at'
    ' least three ids.',
    ['arolla is replaced by the stand-in in shims/kcore, including the hash'
     ' under the fingerprints.'])

SEEDS = ('', 'a', 'b', 'seed', 'uuid', 'ab')
NAMES = ('a', 'b', 'ab', 'ba', 'c', '_x')
VALUES = ('i0', 'i1', 'i2', 'l0', 'l1', 'f3f800000', 'd3ff0000000000000', 'b0',
          'b1', 'p', 't', 'ta', 'tb', 'tab', 't1', 'y', 'ya', 'yab', '_', 'eL1',
          'sINT32', 'sOBJECT')
TYPE = {'i': 'sINT32', 'l': 'sINT64', 'f': 'sFLOAT32', 'd': 'sFLOAT64',
        'b': 'sBOOLEAN', 'p': 'sMASK', 't': 'sSTRING', 'y': 'sBYTES',
        'e': 'sEXPR', 's': 'sSCHEMA'}
KIND = {'u': 'e', 'l': 'l', 'd': 'd'}


class Table:
  """Arguments and the ids they gave: a bijection."""

  def __init__(self):
    self.by_key = {}
    self.by_id = {}

  def put(self, key, i, what=''):
    old = self.by_key.setdefault(key, i)
    expect(old == i, f'{what}: one input, two ids', key=key, ids=(old, i))
    old = self.by_id.setdefault(i, key)
    expect(old == key, f'{what}: two inputs, one id', keys=(old, key), id=i)


def col(d, shape, items):
  """A slice of items of any types."""
  ts = {TYPE[i[0]] for i in items if i[0] in TYPE}
  t = ts.pop() if len(ts) == 1 else 'sOBJECT'
  if t == 'sOBJECT' and 'sSCHEMA' in ts:
    return None
  return kpub.mk(d, t, shape, items)


FIELDS = st.lists(st.tuples(st.sampled_from(NAMES),
                            st.lists(st.sampled_from(VALUES + tuple(range(4))),
                                     min_size=1, max_size=4),
                            st.integers(0, 3)),
                  max_size=4, unique_by=lambda f: f[0])


@check.setup
def _setup():
  kd.build('ids', ['kcore_public.cc', 'kcore_ops.cc'],
           groups=('internal', 'public', 'operators'))


def uuids(d, kind, seed, fields, bag=None):
  seed = kpub.mk(d, 'sSTRING', (), ['t' + seed]).reg
  words = ['{']
  for n, v in fields:
    words += [n, v]
  op = {'u': 'kd.ids.uuid', 'l': 'kd.ids.uuid_for_list',
        'd': 'kd.ids.uuid_for_dict'}[kind]
  return d.call('op', op, seed, *words, '}')


@check.clause(st.tuples(kpub.shape_specs(max_rank=2),
                        st.lists(st.tuples(st.sampled_from('uuuld'),
                                           st.sampled_from(SEEDS), FIELDS,
                                           st.permutations(range(4))),
                                 min_size=2, max_size=6)),
              n=2500, thorough=60000, native=True)
def fields(case):
  """Uuids identify the arguments they are made of."""
  spec, calls = case
  d, d2 = kd.driver(), kd.other()
  shape = kpub.shape_of(spec)
  ids = kd.Alloc(d, 'e', 2).ids + kd.Alloc(d, 'l', 1).ids + kd.Alloc(
      d, 'd', 1).ids
  table = Table()
  bag = d.call('b.new')
  for kind, seed, fs, order in calls:
    cols = []
    for n, pattern, rank in fs:
      pattern = [ids[v] if isinstance(v, int) else v for v in pattern]
      s = kpub.cut(shape, rank)
      items = kpub.fill(pattern, kcast.size(s))
      if any(i[0] == 'o' for i in items) and any(
          i[0] not in 'o_' for i in items):
        items = [i if i[0] == 'o' else '_' for i in items]
      types = {TYPE[i[0]] for i in items if i[0] in TYPE}
      if len(types) > 1:
        items = [i if i[0] != 's' else '_' for i in items]
        types.discard('sSCHEMA')
      t = ('sITEMID' if any(i[0] == 'o' for i in items) else
           'sNONE' if not types else
           types.pop() if len(types) == 1 else 'sOBJECT')
      cols.append((n, t, s, items))
    full = ()
    for _, _, s, _ in cols:
      full = s if len(s) > len(full) else full
    regs = [(n, kpub.mk(d, t, s, i).reg) for n, t, s, i in cols]
    got = kpub.show(d, uuids(d, kind, seed, regs))
    expect_eq((got.schema, got.shape), ('sITEMID', full), 'schema and shape')
    # Fields in another order, in another process, other representations.
    mixed = [cols[k] for k in order if k < len(cols)]
    regs2 = [(n, kpub.mk(d2, t, s, i).reg) for n, t, s, i in mixed]
    again = kpub.show(d2, uuids(d2, kind, seed, regs2))
    expect_eq(again.items, got.items, 'uuids in another process')
    rows = [kcast.broadcast(i, s, full) for _, _, s, i in cols]
    for k, i in enumerate(got.items):
      expect(i[1] == 'u' and i[2] == KIND[kind], f'kind of a uuid {i}')
      table.put((kind, seed, frozenset(
          (c[0], r[k]) for c, r in zip(cols, rows))), i, 'uuid')
    if kind == 'u' and cols:
      # Entities and objects of these fields have these ids.
      for how in ('f.uu', 'f.uuobj'):
        args = [bag, seed] if seed else [bag, '']
        if how == 'f.uu':
          args += ['-', 0]
        flat = [x for n, r in regs for x in (n, r)]
        if any(t in ('sITEMID', 'sNONE') for _, t, _, _ in cols):
          continue
        r = kpub.show(d, d.call(how, *args, len(regs), *flat))
        expect_eq(r.items, got.items, f'ids of {how}')
    # Item by item.
    if got.items:
      k = len(got.items) - 1
      one = [(c[0], kpub.mk(d, c[1], (), [r[k]]).reg)
             for c, r in zip(cols, rows)]
      expect_eq(kpub.show(d, uuids(d, kind, seed, one)).items, [got.items[k]],
                'uuid of one item')
  return len(table.by_key) >= 2


@check.clause(st.lists(st.tuples(kpub.shape_specs(min_rank=1),
                                 st.lists(st.sampled_from(VALUES[:16]),
                                          min_size=1, max_size=4)),
                       min_size=1, max_size=4), n=1500, thorough=40000,
              native=True)
def groups(cases):
  """Uuids of groups identify the sequence of their items."""
  d, d2 = kd.driver(), kd.other()
  table = Table()
  for spec, pattern in cases:
    shape = kpub.shape_of(spec)
    if not shape:
      continue
    items = kpub.fill(pattern, kcast.size(shape))
    got = kpub.show(d, d.call('op', 'kd.ids._agg_uuid',
                              kpub.mk(d, 'sOBJECT', shape, items).reg))
    expect_eq((got.schema, got.shape), ('sITEMID', shape[:-1]),
              'schema and shape')
    again = d2.call('op', 'kd.ids._agg_uuid',
                    kpub.mk(d2, 'sOBJECT', shape, items).reg)
    expect_eq(kpub.show(d2, again).items, got.items, 'in another process')
    for i, g in zip(got.items, kcast.groups(items, shape[-1])):
      expect(i[:3] == 'oue', f'kind of a uuid {i}')
      table.put(tuple(g), i, 'agg_uuid')
  return len(table.by_key) >= 2


@check.clause(st.lists(st.tuples(st.sampled_from(SEEDS),
                                 st.sampled_from((0, 1, 2, 3, 4, 5, 8, 9, 17,
                                                  64, 100))),
                       min_size=1, max_size=5, unique=True),
              n=600, thorough=20000, native=True)
def allocations(calls):
  """Allocations of uuids: distinct, and the same ones again."""
  d, d2 = kd.driver(), kd.other()
  seen = {}
  for seed, n in calls:
    got = []
    for dr in (d, d2):
      r = dr.call('op', 'kd.ids.uuids_with_allocation_size',
                  kpub.mk(dr, 'sSTRING', (), ['t' + seed]).reg,
                  kpub.mk(dr, 'sINT64', (), [f'l{n}']).reg)
      got.append(kpub.show(dr, r))
    expect_eq((got[0].schema, got[0].shape), ('sITEMID', ((n,),)), 'result')
    expect_eq(got[1].items, got[0].items, 'in another process')
    for k, i in enumerate(got[0].items):
      expect(i[:3] == 'oue', f'kind of a uuid {i}')
      expect(i not in seen, 'an id twice', of=(seed, n, k), and_of=seen.get(i))
      seen[i] = seed, n, k
    if n:
      first = int(got[0].items[0][3:], 16)
      expect_eq([int(i[3:], 16) - first for i in got[0].items],
                list(range(n)), 'not one allocation')
  return len(seen) >= 3


@check.clause(st.lists(st.tuples(st.sampled_from('eldx1234'),
                                 st.sampled_from((1, 2, 3, 5, 17, 1000)),
                                 st.integers(0, 4)),
                       min_size=1, max_size=12), n=800, thorough=20000,
              native=True)
def new_ids(specs):
  """New ids are new, of the kind asked for, and one per item."""
  d = kd.driver()
  seen = set()
  total = 0
  pools = []
  for k, n, how in specs:
    if k in 'eldx':
      ids = kd.Alloc(d, k, n).ids
      kinds = [k] * n
    else:
      ids = [d.call('alloc1', 'eldx'[int(k) - 1])]
      kinds = ['eldx'[int(k) - 1]]
    for i, kind in zip(ids, kinds):
      expect(i[1] == 'a' and i[2] == kind, f'{i} is no new {kind}')
    expect(not seen & set(ids), 'an id was allocated twice')
    seen |= set(ids)
    total += len(ids)
    pools.append(ids)
    # New ids like some of those we have.
    flat = [i for p in pools for i in p[:7] if i[2] != 'x']
    like = [(flat + ['_'])[(how * 5 + j * 7) % (len(flat) + 1)]
            for j in range(how * 2)]
    shape = ((len(like),),)
    if how == 4:
      shape = ((2,), (3, len(like) - 3))
    if how == 1:
      shape, like = (), like[:1]
    r = kpub.show(d, d.call('op', 'kd.core._new_ids_like',
                            kpub.mk(d, 'sITEMID', shape, like).reg, 'nd'))
    expect_eq((r.schema, r.shape), ('sITEMID', shape), 'schema and shape')
    for old, new in zip(like, r.items):
      expect_eq(new == '_', old == '_', 'presence')
      if old != '_':
        expect(new[1] == 'a' and new[2] == old[2], f'{new} is not like {old}')
        expect(new not in seen, 'an id was given out twice', id=new)
        seen.add(new)
        total += 1
  return total >= 3


DIGITS = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'


def number(text):
  n = 0
  for c in text:
    n = n * 62 + DIGITS.index(c)
  return n


@check.clause(st.tuples(
    kpub.shape_specs(max_rank=2),
    st.lists(st.one_of(
        st.tuples(st.sampled_from('eldx'), st.integers(1, 1 << 20)),
        st.tuples(st.just('u'), st.integers(0, (1 << 118) - 1)),
        st.tuples(st.just('u'), st.integers(0, 117).map(lambda b: 1 << b)),
        st.tuples(st.just('u'), st.integers(0, 117).map(
            lambda b: (1 << b) - 1)),
        st.tuples(st.just('u'), st.integers(0, 19).map(
            lambda b: 62 ** b % (1 << 118))),
        st.just(('_', 0))), min_size=1, max_size=6)),
    n=2000, thorough=60000, native=True)
def text(case):
  """Ids survive the way to text and back."""
  spec, ids = case
  d = kd.driver()
  shape = kpub.shape_of(spec)
  pool = []
  for k, v in ids:
    if k == '_':
      pool.append('_')
    elif k == 'u':
      pool.append(f'oue{(0x040 << 116 | v & ((1 << 116) - 1)):032x}')
    else:
      a = kd.Alloc(d, k, 1 + v % 40)
      pool.append(a[v])
  items = kpub.fill(pool, kcast.size(shape))
  x = kpub.mk(d, 'sITEMID', shape, items).reg
  enc = kpub.show(d, d.call('op', 'kd.ids.encode_itemid', x))
  expect_eq((enc.schema, enc.shape), ('sSTRING', shape), 'encoded')
  for i, e in zip(items, enc.items):
    if i == '_':
      expect_eq(e, '_', 'text of no id')
    else:
      s = kd.unpct_text(e[1:])
      expect_eq(len(s), 22, f'length of {s!r}')
      expect_eq(f'{number(s):032x}', i[3:], f'number of {s!r}')
  dec = kpub.show(d, d.call('op', 'kd.ids.decode_itemid',
                            kpub.mk(d, 'sSTRING', shape, enc.items).reg))
  expect_eq((dec.schema, dec.shape, dec.items), ('sITEMID', shape, items),
            'decoded')
  has = kpub.show(d, d.call('op', 'kd.ids.has_uuid', x))
  expect_eq((has.schema, has.shape, has.items),
            ('sMASK', shape, ['p' if i[:2] == 'ou' else '_' for i in items]),
            'has_uuid')
  isu = kpub.show(d, d.call('op', 'kd.ids.is_uuid', x))
  expect_eq(isu.items, ['p' if all(i == '_' or i[:2] == 'ou' for i in items)
                        else '_'], 'is_uuid')
  return len(set(items)) >= 3


class Cycle(Exception):
  """An item reaches itself through others."""


def canon(c, s, i, above=()):
  """What is below an item; equal for items that cannot be told apart."""
  if i == '_' or not kcast.is_id(i) or s == 'sITEMID':
    return i
  if s == 'sOBJECT':
    s = c.attrs.get((i, '__schema__'), '_')
  if i in above:
    raise Cycle
  above = (*above, i)
  m = {k: v for k, v in c.schemas.get(s, {}).items() if v != '_'}
  if '__items__' in m:
    return ('list', *(canon(c, m['__items__'], v, above)
                      for v in c.lists.get(i, [])))
  if '__keys__' in m:
    out = []
    for k, v in c.dicts.get(i, {}).items():
      if v == '_':
        raise NotImplementedError  # Removed entries are not specified.
      out.append((canon(c, m['__keys__'], k, above),
                  canon(c, m['__values__'], v, above)))
    if len({k for k, _ in out}) < len(out):
      raise NotImplementedError  # Keys that cannot be told apart.
    return 'dict', frozenset(out)
  out = []
  for n, t in m.items():
    v = c.attrs.get((i, n), '_')
    if v == i:
      out.append((n, ('self',)))
    else:
      out.append((n, canon(c, t, v, above)))
  return 'entity', frozenset(out)


@check.clause(st.tuples(kgraph.tapes, st.integers(0, 255),
                        st.sampled_from(SEEDS)), n=1500, thorough=30000,
              budget_s=40)
def deep(case):
  """Deep uuids identify what is below an item, not its ids."""
  tape, change, seed = case
  d = kd.driver()
  g = kgraph.Graph(d, kgraph.Tape(tape), uu=False, special=False)
  bag = g.layered()
  x = g.root(bag)
  c = kgraph.content(d, bag)
  if kgraph.reach(c, x.schema, x.items).conflict:
    return False

  def deep_uuid(reg, of):
    s = kpub.mk(d, 'sSCHEMA', (), [x.schema], d.call('s.bag', of)).reg
    return kpub.show(d, d.call('op', 'kd.ids._deep_uuid', reg, s,
                               kpub.mk(d, 'sSTRING', (), ['t' + seed]).reg))

  try:
    forms = [canon(c, x.schema, i) for i in x.items]
  except Cycle:
    vp.label('cycle')
    return False
  except NotImplementedError:
    return False
  a = deep_uuid(x.reg, x.reg)
  expect_eq((a.schema, a.shape), ('sITEMID', x.shape), 'schema and shape')
  table = Table()
  for f, u in zip(forms, a.items):
    table.put(f, u, 'deep_uuid')
  # The same from one layer, from the extracted part, from clones, one by one.
  merged = d.call('s.withbag', x.reg, d.call('b.mergefb', bag))
  expect_eq(deep_uuid(merged, merged).items, a.items, 'of the merged bag')
  ex = d.call('s.extract', x.reg)
  expect_eq(deep_uuid(ex, ex).items, a.items, 'of the extracted part')
  schema = kpub.mk(d, 'sSCHEMA', (), [x.schema], bag).reg
  cl = d.call('op', 'kd.core._deep_clone', x.reg, schema, 'nd')
  expect_eq(deep_uuid(cl, cl).items, a.items, 'of deep clones')
  if x.items:
    k = change % len(x.items)
    one = kpub.mk(d, x.schema, (), [x.items[k]], bag).reg
    expect_eq(deep_uuid(one, one).items, [a.items[k]], 'of one item')
  return len(set(a.items) - {'_'}) >= 2


if __name__ == '__main__':
  check.main()
