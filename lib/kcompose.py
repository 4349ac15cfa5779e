"""Histories over public bags that are composed of others, with a model."""
import kcast
import kd
import kgraph
import khist
import kpub
import vp
from vp import expect, expect_eq, st

TYPES = {'a': 'sINT32', 'b': 'sSTRING', 'c': 'sINT64'}
VALUES = {'sINT32': ('i0', 'i1', 'i2'), 'sSTRING': ('tx', 'ty', 'tz'),
          'sINT64': ('l5', 'l6', 'l7')}

small = st.integers(0, 15)
big = st.integers(0, 47)
vals = st.lists(st.integers(0, 3), min_size=1, max_size=4)


def tup(name, *xs):
  return st.tuples(st.just(name), *xs)


WRITES = [
    tup('entity', small, st.sampled_from('abc'), vals, st.integers(0, 6)),
    tup('entity', small, st.sampled_from('ab'), vals, st.just(0)),
    tup('object', small, small, st.sampled_from('ab'), st.integers(0, 8)),
    tup('append', small, vals, st.integers(0, 6)),
    tup('replace', small, vals, st.integers(0, 6)),
    tup('dset', small, vals, vals, st.integers(0, 6)),
    tup('clear', small, st.integers(0, 6)),
    tup('schema', small, st.integers(0, 2), small),
    tup('listschema', small),
]
WHOLE = [
    tup('new'),
    tup('fork', small, st.booleans()),
    tup('freeze', small),
    tup('layers', st.lists(small, max_size=4)),
    tup('layers', st.lists(small, min_size=2, max_size=3)),
    tup('mergefb', small),
    tup('merge', small, small, st.booleans(), st.booleans(), st.booleans()),
    tup('merge', small, small, st.booleans(), st.just(True), st.just(True)),
    tup('update', small, small),
    tup('bags', st.booleans(), st.lists(small, max_size=4)),
    tup('core', st.booleans(), small, st.lists(small, max_size=3)),
    tup('with_merged_bag', small),
    tup('slice_bag', st.integers(0, 2), small),
    tup('adopt', st.booleans(), st.lists(big, min_size=1, max_size=3)),
    tup('adoptinto', small, st.lists(big, min_size=1, max_size=3)),
    tup('with_bag', small, small),
    tup('equal', small, small),
    tup('read', small, small),
]


def cases(ops=()):
  return st.fixed_dictionaries({
      'size': st.sampled_from((1, 2, 3, 9)),
      'start': st.lists(st.lists(st.one_of(*WRITES), min_size=1, max_size=4),
                        min_size=1, max_size=3),
      'ops': st.lists(st.one_of(*WRITES, *WHOLE, *ops), min_size=5,
                      max_size=16)})


def over(*contents):
  """Layers, the first one wins."""
  out = kgraph.Content()
  for c in contents:
    for k, v in c.attrs.items():
      out.attrs.setdefault(k, v)
    for k, v in c.lists.items():
      out.lists.setdefault(k, v)
    for into, of in ((out.dicts, c.dicts), (out.schemas, c.schemas)):
      for i, m in of.items():
        for k, v in m.items():
          into.setdefault(i, {}).setdefault(k, v)
  return out


def conflicts(a, b, data, schema):
  """Whether a triple has two values; None if that is not specified."""
  out = False

  def see(x, y):
    nonlocal out
    if x == y or out is None:
      return
    c = True if '_' in (x, y) else khist.differ(x, y)
    out = None if c is None else out or c

  if data:
    for k, v in a.attrs.items():
      see(v, b.attrs.get(k, v))
    for k, v in a.lists.items():
      w = b.lists.get(k, v)
      if len(w) != len(v):
        out = out if out is None else True
      else:
        for x, y in zip(v, w):
          if '_' in (x, y) and x != y:
            see('x', '_')
          else:
            see(x, y)
  for x, y in ((a.dicts, b.dicts), (a.schemas, b.schemas)):
    for i, m in x.items():
      if not (schema if kcast.is_schema_id(i) and kcast.kind(i) == 'x'
              else data):
        continue
      for k, v in m.items():
        see(v, y.get(i, {}).get(k, v))
  return out


def merge(dst, src, data, schema):
  """data, schema: whether the values of src win."""
  out = kgraph.Content()
  d, s = (src, dst) if data else (dst, src)
  out.attrs = {**s.attrs, **d.attrs}
  out.lists = {**s.lists, **d.lists}
  for i in {*d.dicts, *s.dicts}:
    out.dicts[i] = {**s.dicts.get(i, {}), **d.dicts.get(i, {})}
  for i in {*d.schemas, *s.schemas}:
    wins = schema if kcast.kind(i) == 'x' else data
    x, y = (src, dst) if wins else (dst, src)
    out.schemas[i] = {**y.schemas.get(i, {}), **x.schemas.get(i, {})}
  return out


class World:

  def __init__(self, size):
    self.d = d = kd.driver()
    self.bags = []
    self.models = []
    self.empty = []  # Certainly nothing was written to it.
    self.done = 0
    self.e = kd.Alloc(d, 'e', size).ids
    self.o = kd.Alloc(d, 'e', max(2, size)).ids
    self.l = kd.Alloc(d, 'l', max(2, size)).ids
    self.k = kd.Alloc(d, 'd', max(2, size)).ids
    scratch = d.call('b.new')
    ids = [kpub.show(d, r).items[0] for r in (
        d.call('f.schema', scratch, 0), d.call('f.schema', scratch, 0),
        d.call('f.listschema', scratch, kpub.mk(d, 'sSCHEMA', (),
                                                ['sINT32']).reg),
        d.call('f.dictschema', scratch,
               *(kpub.mk(d, 'sSCHEMA', (), [x]).reg
                 for x in ('sSTRING', 'sINT32'))))]
    self.s, self.free, self.ls, self.ds = ids

  def add(self, reg, model, empty):
    self.bags.append(reg)
    self.models.append(model)
    self.empty.append(empty)
    self.look(len(self.bags) - 1, 'result')

  def look(self, i, what):
    got = kgraph.content(self.d, self.bags[i]).flat()
    want = self.models[i].flat()
    expect(got == want, f'{what}: bag {i}: extra {sorted(got - want)[:5]}'
           f' lost {sorted(want - got)[:5]}')
    e = self.d.call('b.isempty', self.bags[i])
    if want:
      expect_eq(e, '0', f'{what}: bag {i} counts as empty')
    elif self.empty[i]:
      expect_eq(e, '1', f'{what}: bag {i} does not count as empty')

  def mutable(self, i):
    return self.d.call('b.mutable', self.bags[i]) == '1'

  def layers_of(self, i):
    return '|' in self.d.call('b.dump', self.bags[i])

  def pick(self, n):
    # Freezing an immutable bag gives the same bag.
    return self.bags.index(self.bags[n % len(self.bags)])

  def writable(self, n):
    c = [i for i in range(len(self.bags)) if self.mutable(i)]
    if not c:
      self.new()
      c = [len(self.bags) - 1]
    return c[n % len(c)]

  def write(self, i, f):
    f(self.bags[i])
    self.models[i] = kgraph.content(self.d, self.bags[i])
    self.empty[i] = False

  def some(self, ids, n):
    """All, the first ones, or one of them."""
    return ids if n % 3 == 0 else ids[:n // 3 + 1] if n % 3 == 1 else [
        ids[n % len(ids)]]

  def mk(self, schema, ids, bag='-'):
    return kpub.mk(self.d, schema, ((len(ids),),), ids, bag).reg

  def values(self, t, pattern, n):
    return self.mk(t, [(*VALUES[t], '_')[p] for p in kpub.fill(pattern, n)])

  # -- writes --

  def entity(self, b, name, pattern, which):
    ids = self.some(self.e, which)
    self.write(self.writable(b), lambda bag: self.d.call(
        's.set', self.mk(self.s, ids, bag), name,
        self.values(TYPES[name], pattern, len(ids)), 1))

  def object(self, b, which, name, v):
    i = self.o[which % len(self.o)]
    vs = ('i0', 'i1', 'tx', 'd3ff0000000000000', 'l1', 'p', 'b1', 'yx', 'i5')
    types = dict(zip('iltdpby', ('sINT32', 'sINT64', 'sSTRING', 'sFLOAT64',
                                 'sMASK', 'sBOOLEAN', 'sBYTES')))
    x = kpub.mk(self.d, types[vs[v][0]], (), [vs[v]]).reg
    item = kpub.mk(self.d, 'sITEMID', (), [i]).reg
    self.write(self.writable(b), lambda bag: self.d.call(
        'f.obj', bag, item, 1, name, x))

  def list_schema(self, bag):
    self.d.call('s.set', kpub.mk(self.d, 'sSCHEMA', (), [self.ls], bag).reg,
                '__items__', kpub.mk(self.d, 'sSCHEMA', (), ['sINT32']).reg, 1)

  def append(self, b, pattern, which):
    ids = self.some(self.l, which)

    def f(bag):
      self.list_schema(bag)
      self.d.call('s.lappend', self.mk(self.ls, ids, bag),
                  self.values('sINT32', pattern, len(ids)))
    self.write(self.writable(b), f)

  def replace(self, b, pattern, which):
    ids = self.some(self.l, which)

    def f(bag):
      self.list_schema(bag)
      n = len(pattern)
      v = kpub.mk(self.d, 'sINT32', ((len(ids),), (n,) * len(ids)),
                  [(*VALUES['sINT32'], '_')[p] for p in pattern] * len(ids))
      self.d.call('s.lreplace', self.mk(self.ls, ids, bag), 0, '-', v.reg)
    self.write(self.writable(b), f)

  def dict_schema(self, bag):
    s = kpub.mk(self.d, 'sSCHEMA', (), [self.ds], bag).reg
    for n, t in (('__keys__', 'sSTRING'), ('__values__', 'sINT32')):
      self.d.call('s.set', s, n, kpub.mk(self.d, 'sSCHEMA', (), [t]).reg, 1)

  def dset(self, b, keys, pattern, which):
    ids = self.some(self.k, which)

    def f(bag):
      self.dict_schema(bag)
      self.d.call('s.dset', self.mk(self.ds, ids, bag),
                  self.mk('sSTRING', [VALUES['sSTRING'][k % 3] for k in
                                      kpub.fill(keys, len(ids))]),
                  self.values('sINT32', pattern, len(ids)))
    self.write(self.writable(b), f)

  def clear(self, b, which):
    def f(bag):
      self.dict_schema(bag)
      self.d.call('s.clear', self.mk(self.ds, self.some(self.k, which), bag))
    self.write(self.writable(b), f)

  def schema(self, b, name, t):
    dtypes = ('sINT32', 'sSTRING', 'sOBJECT', self.s, self.ls)
    self.write(self.writable(b), lambda bag: self.d.call(
        's.set', kpub.mk(self.d, 'sSCHEMA', (), [self.free], bag).reg,
        'xyz'[name], kpub.mk(self.d, 'sSCHEMA', (), [dtypes[t % 5]]).reg, 1))

  def listschema(self, b):
    self.write(self.writable(b), self.list_schema)

  # -- whole bags --

  def new(self):
    self.add(self.d.call('b.new'), kgraph.Content(), True)

  def count(self, *parts):
    if sum(bool(self.models[i].flat()) for i in parts) >= 2:
      self.done += 1

  def fork(self, b, immutable):
    i = self.pick(b)
    if self.layers_of(i):
      expect(self.d.fails('b.fork', self.bags[i], int(immutable)),
             'a bag with layers was forked')
      return
    self.add(self.d.call('b.fork', self.bags[i], int(immutable)),
             self.models[i], self.empty[i])
    expect_eq(self.mutable(len(self.bags) - 1), not immutable, 'mutable')

  def freeze(self, b):
    i = self.pick(b)
    self.add(self.d.call('b.freeze', self.bags[i]), self.models[i],
             self.empty[i])
    expect(not self.mutable(len(self.bags) - 1), 'a frozen bag is mutable')

  def layers(self, bs):
    ii = [self.pick(b) for b in bs]
    frozen = [self.d.call('b.freeze', self.bags[i]) for i in ii]
    for i in ii:
      if self.mutable(i):
        expect(self.d.fails('b.fallbacks', *frozen[:-1], self.bags[i]),
               'a mutable bag became a layer')
    if len(bs) % 2:
      frozen.insert(1, '-')
    self.add(self.d.call('b.fallbacks', *frozen),
             over(*(self.models[i] for i in ii)),
             all(self.empty[i] for i in ii))
    expect(not self.mutable(len(self.bags) - 1), 'layers are mutable')
    self.count(*set(ii))

  def mergefb(self, b):
    i = self.pick(b)
    self.add(self.d.call('b.mergefb', self.bags[i]), self.models[i], False)
    n = len(self.bags) - 1
    expect(self.mutable(n), 'merged layers cannot be modified')
    expect(not self.layers_of(n), 'merged layers have layers')
    expect_eq(self.d.call('b.contenteq', self.bags[i], self.bags[n]), '1',
              'content of the merged layers')

  def merge(self, b, c, overwrite, data, schema):
    i, j = self.writable(b), self.pick(c)
    bad = conflicts(self.models[i], self.models[j], not data, not schema)
    if bad is None:
      return
    flags = int(overwrite), int(data), int(schema)
    if bad:
      copy = self.d.call('b.fork', self.bags[i], 0)
      expect(self.d.fails('b.merge', copy, self.bags[j], *flags),
             f'a conflict is not reported: {flags}')
      vp.label('conflict')
      return
    self.count(*{i, j})
    self.d.call('b.merge', self.bags[i], self.bags[j], *flags)
    self.models[i] = merge(self.models[i], self.models[j], overwrite,
                           overwrite)
    self.empty[i] = self.empty[i] and self.empty[j]
    self.look(i, f'merge {flags} of {j}')
    for k in range(len(self.bags)):
      if not self.mutable(k):
        expect(self.d.fails('b.merge', self.bags[k], self.bags[j], *flags),
               'an immutable bag was merged into')
        break

  def update(self, b, c):
    i, j = self.pick(b), self.pick(c)
    if self.layers_of(i):
      expect(self.d.fails('b.update', self.bags[i], self.bags[j]),
             'update of a bag with layers')
      return
    u = self.d.call('b.update', self.bags[i], self.bags[j])
    expect_eq(self.d.call('b.mutable', u), '0', 'the update is mutable')
    both = self.d.call('b.fallbacks', u, self.d.call('b.freeze',
                                                     self.bags[i]))
    self.add(both, over(self.models[j], self.models[i]), False)
    # Nothing that neither of them has.
    known = over(self.models[j], self.models[i]).flat()
    extra = kgraph.content(self.d, u).flat() - known
    expect(not extra, f'facts of the update from nowhere: {sorted(extra)[:5]}')
    self.count(*{i, j})

  def bags_op(self, first, bs):
    ii = [self.pick(b) for b in bs]
    op = 'kd.bags.enriched' if first else 'kd.bags.updated'
    reg = self.d.call('op', op, *(self.bags[i] for i in ii))
    order = ii if first else ii[::-1]
    self.add(reg, over(*(self.models[i] for i in order)),
             all(self.empty[i] for i in ii))
    expect(not self.mutable(len(self.bags) - 1), f'{op}: mutable result')
    self.count(*set(ii))

  def core(self, first, b, bs):
    i, ii = self.pick(b), [self.pick(b) for b in bs]
    op = 'kd.core.enriched' if first else 'kd.core.updated'
    x = self.mk(self.s, self.e, self.bags[i])
    args = (op, x, *(self.bags[j] for j in ii))
    if self.mutable(i):
      expect(self.d.fails('op', *args), f'{op} of a slice with a mutable bag')
      return
    if not ii:
      return
    r = self.d.call('op', *args)
    kpub.check(self.d, r, self.s, ((len(self.e),),), self.e, op)
    order = [i, *ii] if first else [*ii[::-1], i]
    self.add(self.d.call('s.bag', r), over(*(self.models[j] for j in order)),
             all(self.empty[j] for j in order))
    self.count(i, *set(ii))

  def with_merged_bag(self, b):
    i = self.pick(b)
    x = self.mk(self.s, self.e, self.bags[i])
    r = self.d.call('op', 'kd.core.with_merged_bag', x)
    kpub.check(self.d, r, self.s, ((len(self.e),),), self.e, 'with_merged_bag')
    self.add(self.d.call('s.bag', r), self.models[i], self.empty[i])
    n = len(self.bags) - 1
    expect(not self.mutable(n), 'with_merged_bag gave a mutable bag')
    expect(not self.layers_of(n), 'with_merged_bag left layers')

  def slice_bag(self, how, b):
    i = self.pick(b)
    x = self.mk(self.s, self.e, self.bags[i])
    if how == 0 and self.layers_of(i):
      expect(self.d.fails('s.forkbag', x), 'a bag with layers was forked')
      return
    r = (self.d.call('s.forkbag', x) if how == 0 else
         self.d.call('s.freezebag', x) if how == 1 else
         self.d.call('op', 'kd.core.freeze_bag', x))
    kpub.check(self.d, r, self.s, ((len(self.e),),), self.e, 'slice')
    self.add(self.d.call('s.bag', r), self.models[i], self.empty[i])
    expect_eq(self.mutable(len(self.bags) - 1), how == 0, 'mutable')

  def tracked(self, bs):
    """Arguments of an adoption queue: (arguments, bags, [(bag, content)])."""
    args, whole, parts, todo = [], [], [], []
    for b in bs:
      i, how = self.pick(b // 4), b % 4
      if how == 0:
        args.append(self.bags[i])
        whole.append(i)
        continue
      ids, s = ((self.e[:1 + b % len(self.e)], self.s), (self.l, self.ls),
                (self.k, self.ds))[how - 1]
      args.append(self.mk(s, ids, self.bags[i]))
      todo.append((i, s, ids))
    for i, s, ids in todo:
      if i not in whole:
        parts.append((i, kgraph.reach(self.models[i], s, ids)))
    return (args, list(dict.fromkeys(whole)), parts,
            list(dict.fromkeys(whole + [i for i, *_ in todo])))

  def union(self, first, contents):
    """(content, conflict)"""
    bad = False
    for c in contents:
      x = conflicts(first, c, True, True)
      bad = None if None in (bad, x) else bad or x
      first = over(first, c)
    return first, bad

  def adopt(self, common, bs):
    args, whole, parts, ii = self.tracked(bs)
    if common and len(ii) > 1:
      want, bad = self.union(kgraph.Content(),
                             [self.models[i] for i in whole]
                             + [c for _, c in parts])
      if bad is None:
        return
      if bad:
        expect(self.d.fails('b.adopt', 'common', *args),
               'a conflict is not reported')
        vp.label('adoption conflict')
        return
    else:
      want = over(*(self.models[i] for i in ii))
    got = self.d.call('b.adopt', 'common' if common else 'fb', *args)
    self.look_at(got, want, 'adoption')
    self.count(*ii)

  def look_at(self, reg, model, what):
    got, want = kgraph.content(self.d, reg).flat(), model.flat()
    expect(got == want, f'{what}: extra {sorted(got - want)[:5]}'
           f' lost {sorted(want - got)[:5]}')

  def adoptinto(self, b, bs):
    i = self.writable(b)
    args, whole, parts, ii = self.tracked(bs)
    seen, bad = self.union(self.models[i],
                           [self.models[j] for j in whole if j != i]
                           + [c for j, c in parts if j != i])
    if bad is None or bad and i in ii:
      return
    if bad:
      copy = self.d.call('b.fork', self.bags[i], 0)
      expect(self.d.fails('b.adoptinto', copy, *args),
             'a conflict is not reported')
      return
    self.d.call('b.adoptinto', self.bags[i], *args)
    self.models[i] = seen
    self.empty[i] = False
    self.look(i, 'adoption into a bag')
    self.count(*{i, *ii})

  def with_bag(self, b, c):
    """A slice of another bag brings its content along."""
    i, j = self.pick(b), self.pick(c // 2)
    s, ids = ((self.s, self.e), (self.ls, self.l))[c % 2]
    x = self.mk(s, ids, self.bags[j])
    if self.mutable(i):
      expect(self.d.fails('b.withadopted', self.bags[i], x),
             'adoption left a mutable bag behind')
      return
    got = self.d.call('b.withadopted', self.bags[i], x)
    self.look_at(got, over(kgraph.reach(self.models[j], s, ids),
                           self.models[i]), 'with adopted values')
    self.count(*{i, j})

  def equal(self, b, c):
    i, j = self.pick(b), self.pick(c)
    got = self.d.call('b.contenteq', self.bags[i], self.bags[j])
    expect_eq(got == '1', self.models[i].flat() == self.models[j].flat(),
              f'content of {i} and {j} is equal')
    if self.d.call('b.exacteq', self.bags[i], self.bags[j]) == '1':
      expect_eq(got, '1', 'exactly equal but not equal')

  def read(self, b, which):
    """Reading through the layers."""
    i = self.pick(b)
    m, bag = self.models[i], self.bags[i]
    fields = m.schemas.get(self.s, {})
    for name in 'abc':
      if fields.get(name, '_') == '_':
        continue
      r = self.d.call('s.get', self.mk(self.s, self.e, bag), name)
      kpub.check(self.d, r, fields[name], ((len(self.e),),),
                 [m.attrs.get((e, name), '_') for e in self.e],
                 f'attribute {name} of bag {i}')
    if m.schemas.get(self.ls, {}).get('__items__', '_') != '_':
      r = self.d.call('s.explode', self.mk(self.ls, self.l, bag), 0, '-')
      lists = [m.lists.get(x, []) for x in self.l]
      kpub.check(self.d, r, 'sINT32',
                 ((len(self.l),), tuple(map(len, lists))),
                 [v for x in lists for v in x], f'lists of bag {i}')
    if m.schemas.get(self.ds, {}).get('__values__', '_') != '_':
      key = VALUES['sSTRING'][which % 3]
      r = self.d.call('s.dget', self.mk(self.ds, self.k, bag),
                      kpub.mk(self.d, 'sSTRING', (), [key]).reg)
      kpub.check(self.d, r, 'sINT32', ((len(self.k),),),
                 [m.dicts.get(x, {}).get(key, '_') for x in self.k],
                 f'dicts of bag {i}')


def start(c, cls=World):
  w = cls(c['size'])
  for ops in c['start']:
    w.new()
    for op in ops:
      getattr(w, op[0])(len(w.bags) - 1, *op[2:])
  return w


def run(w, ops):
  for op in ops:
    if len(w.bags) > 12 and op[0] in ('new', 'fork', 'freeze'):
      continue
    getattr(w, {'bags': 'bags_op'}.get(op[0], op[0]))(*op[1:])
