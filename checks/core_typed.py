"""C22: typed attributes of entities and objects."""
import kcast
import kd
import kpub
import vp
from kcast import Bad
from vp import expect, expect_eq, st

check = vp.Check(
    'C22',
    'Generated histories over entities (explicit and shared schemas) and'
    ' objects (own, shared and explicit schemas): attribute writes with and'
    ' without overwriting the schema, static and per-item names, broadcast,'
    ' narrowing and embedding, deletions; reads are compared with a typed'
    ' dictionary model, as are the errors. Non-trivial: at least two accepted'
    ' writes.',
    ['arolla is replaced by the stand-in in shims/kcore.'])

NAMES = ('a', 'b', 'c')


@check.setup
def _setup():
  kd.build('typed', ['kcore_public.cc'])


class World:
  """One bag, groups of entities and objects."""

  def __init__(self):
    self.d = kd.driver()
    self.bag = self.d.call('b.new')
    self.groups = []
    self.attrs = {}     # (id, name) -> item
    self.schemas = {}   # schema -> {name: schema}
    self.objs = {}      # id -> schema
    self.writes = 0
    self.home = {}      # id -> schema of its group
    self.mixed = set()  # (schema, name) with values of another type.

  # -- model ---------------------------------------------------------------

  def obj_schema(self, oid):
    return self.objs.get(oid)

  def types(self, schema, items):
    """The schemas of the items."""
    if schema == 'sNONE':
      return []
    if schema != 'sOBJECT':
      return [schema]
    return [self.objs[i] for i in items if i != '_']

  def target(self, schema, items, name, val, overwrite):
    """The schema the attribute gets and the items to store."""
    ts = self.types(schema, items)
    keep = set()
    if not overwrite:
      keep = {self.schemas[t][name] for t in ts
              if kcast.kind(t) == 'x' and name in self.schemas[t]}
    if len(keep) > 1:
      raise Bad('different types')
    if not keep:
      return val.schema, val.items, ts
    to = keep.pop()
    if to == val.schema:
      return to, val.items, ts
    if to == 'sOBJECT' and kcast.is_id(val.schema):
      for i in val.items:
        if i != '_' and self.objs.get(i, val.schema) != val.schema:
          raise Bad('another schema is embedded')
      for i in val.items:
        if i != '_':
          self.objs[i] = val.schema
      return to, val.items, ts
    return to, kcast.cast_narrow(val.schema, val.items, to,
                                 self.obj_schema), ts

  def put(self, schema, items, name, val, overwrite):
    to, new, ts = self.target(schema, items, name, val, overwrite)
    for t in ts:
      if self.schemas[t].get(name, to) != to and any(
          n == name and v != '_' and o not in items and t in (
              self.objs.get(o), self.home.get(o))
          for (o, n), v in self.attrs.items()):
        self.mixed.add((t, name))
      self.schemas[t][name] = to
    for o, v in zip(items, new):
      if o != '_':
        self.attrs[o, name] = v

  def got(self, g, name, strict):
    """(schema, items) of the attribute."""
    if g.schema == 'sNONE' or not strict and not [
        t for t in self.types(g.schema, g.items) if name in self.schemas[t]]:
      return 'sNONE', ['_'] * len(g.items)
    ts = self.types(g.schema, g.items)
    if strict and any(name not in self.schemas[t] for t in ts):
      raise Bad('no such attribute')
    to = kcast.common([self.schemas[t].get(name, '_') for t in ts]) or 'sNONE'
    out = []
    for o in g.items:
      v = '_'
      if o != '_' and name in self.schemas[
          g.schema if g.schema != 'sOBJECT' else self.objs[o]]:
        v = self.attrs.get((o, name), '_')
      out.append(kcast.convert(v, to))
    return to, out

  # -- values --------------------------------------------------------------

  def value(self, spec, shape):
    """A value that broadcasts to the shape."""
    if spec[0] == 'own':  # Something from this bag.
      _, g, k, rank, as_obj = spec
      if not self.groups:
        spec = ('prim', ('sINT32', ['i1']), rank)
      else:
        g = self.groups[g % len(self.groups)]
        ids = g.items or ['_']
        sh = kpub.cut(shape, rank)
        items = [ids[(k + i) % len(ids)] for i in range(kcast.size(sh))]
        schema = g.schema
        if as_obj and all(i in self.objs for i in items if i != '_'):
          schema = 'sOBJECT'
        return kpub.mk(self.d, schema, sh, items, self.bag)
    _, (schema, pattern), rank = spec
    sh = kpub.cut(shape, rank)
    return kpub.mk(self.d, schema, sh, kpub.fill(pattern, kcast.size(sh)))

  def subset(self, spec):
    """A group, or some of its items."""
    gi, how, k = spec
    g = self.groups[gi % len(self.groups)]
    if how == 0 or not g.items:
      return g
    n = len(g.items)
    if how == 1:
      items = [g.items[k % n]]
      return kpub.mk(self.d, g.schema, (), items, self.bag)
    if how == 2:
      items = [g.items[(k + i * 2) % n] for i in range(min(n, 4))] + ['_']
    elif how == 3:
      items = ['_', '_']
    else:  # Items of several groups, as objects.
      items = [i for h in self.groups for i in h.items[:2] if i in self.objs]
      return kpub.mk(self.d, 'sOBJECT', ((len(items),),), items, self.bag)
    return kpub.mk(self.d, g.schema, ((len(items),),), items, self.bag)

  # -- operations ----------------------------------------------------------

  def attempt(self, want, *args):
    """want() is the effect in the model; both must agree on errors."""
    try:
      want()
    except Bad as e:
      expect(self.d.fails(*args), 'the operation has to be rejected',
             operation=args, why=str(e))
      return False
    self.d.call(*args)
    self.writes += 1
    return True

  def add(self, reg, schema, shape):
    g = kpub.show(self.d, reg)
    expect_eq(kcast.shape_tok(g.shape), kcast.shape_tok(shape), 'shape')
    old = {i for h in self.groups for i in h.items}
    expect(len(set(g.items)) == len(g.items) and '_' not in g.items
           and not old & set(g.items), 'the items are not new', items=g.items)
    if schema:
      expect_eq(g.schema, schema, 'schema of the new items')
    self.groups.append(g)
    for o in g.items:
      self.home[o] = g.schema
    return g

  def new_entities(self, sh, share, names, vals):
    shape = kpub.shape_of(sh)
    pairs = [(n, self.value(v, shape)) for n, v in zip(names, vals)]
    ents = [g for g in self.groups if g.schema != 'sOBJECT']
    schema = '-'
    if share is not None and ents:
      s = ents[share % len(ents)].schema
      try:
        todo = [(n, v) + self.target(s, [], n, v, False)[:2]
                for n, v in pairs]
      except Bad:
        return
      schema = kpub.mk(self.d, 'sSCHEMA', (), [s], self.bag).reg
    args = [len(pairs)] + [x for n, v in pairs for x in (n, v.reg)]
    reg = self.d.call('f.entityshaped', self.bag, kcast.shape_tok(shape),
                      schema, 0, '-', *args)
    g = self.add(reg, None if schema == '-' else s, shape)
    if schema == '-':
      expect(g.schema not in self.schemas, 'the schema is not new')
      expect_eq(kcast.kind(g.schema), 'x', 'kind of schema')
      self.schemas[g.schema] = {n: v.schema for n, v in pairs}
      todo = [(n, v, v.schema, v.items) for n, v in pairs]
    for n, v, to, items in todo:
      self.schemas[g.schema][n] = to
      for o, x in zip(g.items, kcast.broadcast(items, v.shape, shape)):
        self.attrs[o, n] = x
    self.writes += 1

  def new_objects(self, sh, names, vals):
    shape = kpub.shape_of(sh)
    pairs = [(n, self.value(v, shape)) for n, v in zip(names, vals)]
    args = [len(pairs)] + [x for n, v in pairs for x in (n, v.reg)]
    reg = self.d.call('f.objshaped', self.bag, kcast.shape_tok(shape), '-',
                      *args)
    g = self.add(reg, 'sOBJECT', shape)
    ss = kpub.show(self.d, self.d.call('s.objschema', reg)).items
    expect(len(set(ss)) == len(ss) and not set(ss) & set(self.schemas),
           'the schemas of new objects are not new', schemas=ss)
    for o, s in zip(g.items, ss):
      self.objs[o] = s
      self.schemas[s] = {n: v.schema for n, v in pairs}
    for n, v in pairs:
      for o, x in zip(g.items, kcast.broadcast(v.items, v.shape, shape)):
        self.attrs[o, n] = x
    self.writes += 1

  def embed(self, gi):
    """Entities as objects."""
    g = self.groups[gi % len(self.groups)]
    if g.schema == 'sOBJECT' or any(
        self.objs.get(i, g.schema) != g.schema for i in g.items):
      return
    reg = self.d.call('s.embed', g.reg, 0)
    for i in g.items:
      self.objs[i] = g.schema
    self.groups.append(kpub.check(self.d, reg, 'sOBJECT', g.shape, g.items,
                                  'embedded entities'))

  def set(self, sub, name, spec, overwrite):
    g = self.subset(sub)
    v = self.value(spec, g.shape)
    w = kpub.Val(v.reg, v.schema, g.shape,
                 kcast.broadcast(v.items, v.shape, g.shape))
    self.attempt(lambda: self.put(g.schema, g.items, name, w, overwrite),
                 's.set', g.reg, name, v.reg, int(overwrite))

  def setdyn(self, sub, names, spec, overwrite):
    """A name for each item."""
    g = self.subset(sub)
    if not g.shape:
      return
    ns = kpub.fill(names, len(g.items))
    nv = kpub.mk(self.d, 'sSTRING', g.shape, ['t' + n if n != '_' else n
                                              for n in ns])
    v = self.value(spec, g.shape)
    items = kcast.broadcast(v.items, v.shape, g.shape)
    if all(n == '_' for n in ns):
      self.d.call('s.setdyn', g.reg, nv.reg, v.reg, int(overwrite))
      return

    def effect():
      for o, n, x in zip(g.items, ns, items):
        if o != '_' and n != '_':
          self.put(g.schema, [o], n, kpub.Val(None, v.schema, (), [x]),
                   overwrite)
    self.attempt(effect, 's.setdyn', g.reg, nv.reg, v.reg, int(overwrite))

  def delete(self, sub, name):
    g = self.subset(sub)

    def effect():
      if g.schema == 'sNONE':
        return
      ts = self.types(g.schema, g.items)
      own = [t for t in ts if kcast.kind(t) == 'i']
      if any(name not in self.schemas[t]
             for t in (own if g.schema == 'sOBJECT' and g.shape else ts)):
        raise Bad('no such attribute')
      for t in own:  # Explicit schemas keep it.
        self.schemas[t].pop(name, None)
      for o in g.items:
        if o != '_':
          self.attrs[o, name] = '_'
    self.attempt(effect, 's.del', g.reg, name)

  # -- reads ---------------------------------------------------------------

  def unclear(self, g, name):
    """An overwritten schema does not fit the values of other entities."""
    return any((t, name) in self.mixed for t in self.types(g.schema, g.items))

  def read(self, g, name, strict):
    if self.unclear(g, name):
      return None
    cmd = 's.get' if strict else 's.getom'
    try:
      want = self.got(g, name, strict)
    except Bad as e:
      expect(self.d.fails(cmd, g.reg, name), 'reading has to be rejected',
             slice=g, name=name, why=str(e))
      return None
    reg = self.d.call(cmd, g.reg, name)
    return kpub.check(self.d, reg, want[0], g.shape, want[1],
                      f'attribute {name!r}')

  def get(self, sub, name, strict):
    r = self.read(self.subset(sub), name, strict)
    if r is None or r.schema == 'sNONE':
      return
    if r.schema in self.schemas or r.schema == 'sOBJECT' and all(
        i in self.objs for i in r.items if i != '_'):
      for n in NAMES:  # Read on from there.
        self.read(r, n, strict)

  def default(self, sub, name, spec):
    g = self.subset(sub)
    if self.unclear(g, name):
      return
    v = self.value(spec, g.shape)
    items = kcast.broadcast(v.items, v.shape, g.shape)
    try:
      schema, got = self.got(g, name, False)
      to = kcast.common([schema, v.schema])
      want = [kcast.convert(b if a == '_' else a, to) if o != '_' else '_'
              for o, a, b in zip(g.items, got, items)]
    except Bad as e:
      expect(self.d.fails('s.getdef', g.reg, name, v.reg),
             'reading with a default has to be rejected', why=str(e))
      return
    kpub.check(self.d, self.d.call('s.getdef', g.reg, name, v.reg), to,
               g.shape, want, 'attribute with default')

  def has(self, sub, name):
    g = self.subset(sub)
    want = []
    for o in g.items:
      t = '_' if o == '_' else g.schema if g.schema != 'sOBJECT' else self.objs[o]
      want.append('p' if t != '_' and name in self.schemas.get(t, ()) and
                  self.attrs.get((o, name), '_') != '_' else '_')
    kpub.check(self.d, self.d.call('s.has', g.reg, name), 'sMASK', g.shape,
               want, f'presence of attribute {name!r}')

  def names(self, sub, mode):
    g = self.subset(sub)
    ts = [set(self.schemas[t]) for t in self.types(g.schema, g.items)]
    if mode == 'e':
      if any(t != ts[0] for t in ts):
        expect(self.d.fails('s.names', g.reg, mode),
               'different names have to be rejected')
        return
    want = (set.union if mode == 'u' else set.intersection)(*ts) if ts else set()
    got = self.d.call('s.names', g.reg, mode)
    expect_eq([] if got == '.' else got.split(','), sorted(want),
              'attribute names')

  def sweep(self):
    for g in self.groups:
      for n in NAMES:
        self.read(g, n, False)
      if g.schema == 'sOBJECT':
        kpub.check(self.d, self.d.call('s.objschema', g.reg), 'sSCHEMA',
                   g.shape, [self.objs[i] for i in g.items],
                   'schemas of objects')
      for t in dict.fromkeys(self.types(g.schema, g.items)):
        s = kpub.mk(self.d, 'sSCHEMA', (), [t], self.bag)
        got = self.d.call('s.names', s.reg, 'e')
        expect_eq([] if got == '.' else got.split(','),
                  sorted(self.schemas[t]), 'attributes of a schema')
        for n, want in self.schemas[t].items():
          kpub.check(self.d, self.d.call('s.get', s.reg, n), 'sSCHEMA', (),
                     [want], 'type of an attribute')


val = st.one_of(
    st.tuples(st.just('prim'), kpub.typed_values(), st.integers(0, 3)),
    st.tuples(st.just('prim'), kpub.typed_values(), st.integers(0, 3)),
    st.tuples(st.just('own'), st.integers(0, 5), st.integers(0, 9),
              st.integers(0, 3), st.booleans()))
sub = st.tuples(st.integers(0, 5), st.sampled_from((0, 0, 0, 1, 2, 2, 3, 4)),
                st.integers(0, 9))
name = st.sampled_from(NAMES)
shapes = kpub.shape_specs(first=(0, 1, 2, 3, 5, 9, 30))
attrs = (st.lists(name, max_size=3, unique=True),
         st.lists(val, min_size=3, max_size=3))
flag = st.sampled_from((False, False, False, True))
ops = st.one_of(
    st.tuples(st.just('new_entities'), shapes,
              st.one_of(st.none(), st.integers(0, 5)), *attrs),
    st.tuples(st.just('new_objects'), shapes, *attrs),
    st.tuples(st.just('embed'), st.integers(0, 5)),
    st.tuples(st.just('set'), sub, name, val, flag),
    st.tuples(st.just('set'), sub, name, val, flag),
    st.tuples(st.just('set'), sub, name, val, flag),
    st.tuples(st.just('setdyn'), sub,
              st.lists(st.sampled_from(NAMES + ('_',)), min_size=1,
                       max_size=3), val, flag),
    st.tuples(st.just('delete'), sub, name),
    st.tuples(st.just('get'), sub, name, st.booleans()),
    st.tuples(st.just('get'), sub, name, st.booleans()),
    st.tuples(st.just('default'), sub, name, val),
    st.tuples(st.just('has'), sub, name),
    st.tuples(st.just('names'), sub, st.sampled_from('iue')))


@check.clause(st.lists(ops, min_size=4, max_size=18), n=1200, thorough=40000,
              native=True)
def typed(case):
  """Attributes follow the typed model."""
  w = World()
  for op in case:
    if w.groups or op[0].startswith('new'):
      getattr(w, op[0])(*op[1:])
  w.sweep()
  return w.writes >= 2


if __name__ == '__main__':
  check.main()
