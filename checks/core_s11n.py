"""C35: serialized slices and bags come back as they were."""
import kcompose
import kcast
import kd
import kgen
import kgraph
import khist
import kpub
import kwire
import vp
from vp import expect, expect_eq, st

check = vp.Check(
    'C35',
    'Values are encoded by koladata/s11n/encoder.cc and decoded by decoder.cc,'
    ' also in another process: bags after generated histories (which go on'
    ' with the decoded bags), composed and layered bags together with slices'
    ' of them, slices of all types, shapes and representations, and slices of'
    ' millions of values. A reader and a writer of the wire format in Python'
    ' take part in it. Malformed messages have to be refused.'
    ' Non-trivial: the values hold at least one present item (bags: two'
    ' writes; malformed: a message that is not accepted).',
    ['arolla is replaced by the stand-in in shims/kcore: its container stores'
     ' equal values (by fingerprint) once, as the encoder of arolla does.'])

hist_ops = (khist.ATTR_OPS + khist.LIST_OPS + khist.DICT_OPS
            + khist.SCHEMA_OPS + khist.ATTR_READS + khist.LIST_READS
            + khist.DICT_READS + khist.SCHEMA_READS)


@check.setup
def _setup():
  kd.build('s11n', ['kcore_public.cc', 'kcore_impl.cc', 'kcore_ops.cc',
                    'kcore_s11n.cc'],
           groups=('internal', 'public', 'operators', 's11n'))


# --- bags -------------------------------------------------------------------


class World(khist.World):
  stored = trips = 0

  def s11n(self, bs, how):
    """Some bags take a trip and join the others."""
    ii = list(dict.fromkeys(b % len(self.regs) for b in bs))
    if len(self.regs) + len(ii) > 10:
      return
    pub = [self.d.call('z.frombag', self.d.call('i.fork', self.regs[i]))
           for i in ii]
    if how:
      pub = [self.d.call('b.freeze', p) for p in pub]
    blob = self.d.call('z.enc', *pub)
    back = self.d.call('z.dec', blob).split(' ')
    expect_eq(len(back), len(ii), 'number of bags')
    shared = {tuple(['a', *x.split(':')])
              for x in self.d.call('z.shared', blob).split()}
    for i, b in zip(ii, back):
      expect_eq(self.d.call('b.mutable', b), '01'[not how], 'mutable')
      reg = self.d.call('b.impls', b)
      got, want = self.dump_of(reg), self.dump_of(self.regs[i])
      model = self.models[i].fork()
      for k in {*got, *want} & shared:
        # KNOWN_FINDINGS: which missing values are removed ones is not kept.
        if got.get(k, '_') == want.get(k, '_') == '_':
          vp.label('shared values')
          want[k] = got.get(k)
          key = k[1], kd.unpct_text(k[2])
          if k not in got:
            model.attrs.pop(key, None)
          elif k[1] in self.mine() or key in model.attrs:
            # (Others are ids that nothing was created with.)
            model.attrs[key] = 'r'
      diff = [(k, got.get(k), want.get(k)) for k in {*got, *want}
              if got.get(k) != want.get(k)]
      expect(not diff, f'decoded bag (got, want): {diff[:5]}')
      if how:
        reg = self.d.call('i.fork', reg)
      self._add(reg, model, set(self.fuzzy[i]), i if how else None)
      self.trips += 1
      self.stored += self.writes >= 2

  def a_unit(self, b, spec):
    if not self.trips:  # Not supported with attributes set as a whole.
      super().a_unit(b, spec)

  def mine(self):
    return {o for a in self.al for o in a.ids}


trips = [khist.tup('s11n', st.lists(khist.bag, min_size=1, max_size=3),
                   st.booleans()) for _ in range(8)]


def play(c, kinds):
  w = World(c['allocs'])
  w.run(c['ops'])
  for i in range(len(w.regs)):
    w.s11n([i], i % 2)
  w.sweep(kinds)
  if kinds != 's':
    for i in range(len(w.regs)):
      w.check_dump(i)
  return w.stored > 0


@check.clause(khist.histories(
    khist.ATTR_OPS + khist.ATTR_READS + khist.FORKS + trips, 'eeeld',
    max_ops=16), n=700, thorough=40000, native=True)
def attributes(c):
  """Bags of attributes come back and go on like the original."""
  return play(c, 'a')


@check.clause(khist.histories(
    khist.LIST_OPS + khist.DICT_OPS + khist.LIST_READS + khist.DICT_READS
    + khist.FORKS + trips, 'lldd', max_ops=16), n=700, thorough=40000,
    native=True)
def containers(c):
  """Bags of lists and dicts come back and go on like the original."""
  return play(c, 'ld')


@check.clause(khist.histories(
    khist.SCHEMA_OPS + khist.SCHEMA_READS + khist.FORKS + trips, 'exxx',
    max_ops=16), n=700, thorough=40000, native=True)
def schemas(c):
  """Schemas come back and go on like the original."""
  return play(c, 's')


class Composed(kcompose.World):
  stored = 0

  def s11n(self, bs, order, away):
    """Bags, and slices of them, take a trip together."""
    d = self.d
    values = []
    for b in bs:
      i = self.pick(b // 4)
      x = [None, (self.s, self.e), (self.ls, self.l), (self.ds, self.k)][b % 4]
      if x is None:
        values.append((i, None, self.bags[i]))
      else:
        reg = self.mk(*x, self.bags[i])
        if b % 3 == 0:
          # The slice of a single item.
          reg = kpub.mk(d, x[0], (), x[1][:1], self.bags[i]).reg
          x = (x[0], x[1][:1])
        values.append((i, (reg, *x, b % 3 == 0), reg))
    blob = d.call('z.enc', *(v[2] for v in values))
    if away:
      # Another process reads and writes it.
      o = kd.other()
      b2 = o.call('z.blob', d.call('z.bytes', blob))
      back = o.call('z.dec', b2).split(' ')
      blob = d.call('z.blob', o.call('z.bytes', o.call('z.enc', *back)))
    back = d.call('z.dec', blob).split(' ')
    shared = set(d.call('z.shared', blob).split())
    expect_eq(len(back), len(values), 'number of values')
    bags = {}
    for (i, x, old), new in zip(values, back):
      if x is not None:
        _, schema, ids, scalar = x
        kpub.check(d, new, schema, () if scalar else ((len(ids),),), ids,
                   'decoded slice')
        expect_eq(d.call('z.whole', new), d.call('z.whole', old),
                  'the slice is whole')
        new, old = d.call('s.bag', new), self.bags[i]
      expect_eq(bags.setdefault(old, new), new, 'one bag became two')
    expect_eq(len(set(bags.values())), len({d.call('z.fp', b) for b in bags}),
              'two bags became one')
    for i in dict.fromkeys(v[0] for v in values):
      old, new = self.bags[i], bags[self.bags[i]]
      mutable = self.mutable(i)
      expect_eq(d.call('b.mutable', new), str(int(mutable)), 'mutable')
      same = d.call('z.fp', new) == d.call('z.fp', old)
      expect_eq(same, not mutable, 'fingerprint is kept')
      a, b = (self.layered(r, shared) for r in (old, new))
      expect_eq(len(a), len(b), 'number of layers')
      for x, y in zip(a, b):
        expect(x == y, f'decoded bag: extra {sorted(y - x)[:5]}'
               f' lost {sorted(x - y)[:5]}')
      if not shared and len(self.bags) < 14:
        self.bags.append(new)
        self.models.append(self.models[i])
        self.empty.append(self.empty[i])
      self.stored += self.done > 0 and bool(self.models[i].flat())

  def layered(self, bag, shared):
    out = []
    for part in self.d.call('b.dump', bag).split('|'):
      out.append({t for t in part.split() if not (
          t.startswith('a:') and t.endswith(':_') and t[2:-2] in shared)})
    # Equal bags that are layers of one bag are one layer.
    return list(dict.fromkeys(map(frozenset, out)))

  def pick(self, n):
    return n % len(self.bags)


@check.clause(kcompose.cases([
    kcompose.tup('s11n', st.lists(kcompose.big, min_size=1, max_size=5),
                 st.integers(0, 3), st.booleans()) for _ in range(6)]),
              n=700, thorough=40000, native=True)
def composed(c):
  """Layers, forks and frozen bags, with slices of them."""
  w = kcompose.start(c, Composed)
  kcompose.run(w, c['ops'])
  w.s11n([4 * i for i in range(len(w.bags))], 0, len(c['ops']) % 2)
  for i in range(len(w.bags)):
    w.look(i, 'at the end')
  return w.stored > 0


# --- slices -----------------------------------------------------------------

one_value = st.tuples(
    kpub.typed_values(), kpub.shape_specs(),
    st.sampled_from(('slice', 'slice', 'slice', 'item', 'impl', 'shape',
                     'base', 'other')),
    st.integers(0, 9))


@check.clause(st.tuples(st.lists(one_value, min_size=1, max_size=6),
                        st.booleans()), n=1500, thorough=80000, native=True)
def slices(c):
  """Values of all types, shapes and representations come back."""
  values, away = c
  d = kd.driver()
  args, want = [], []
  for (schema, pattern), spec, kind, n in values:
    shape = kpub.shape_of(spec)
    count = sum(shape[-1]) if shape else 1
    toks = kpub.fill(pattern, count)
    if kind == 'slice':
      bag = '-' if n < 7 else d.call('b.new')
      if n == 9:
        bag = d.call('b.freeze', bag)
      args.append(kpub.mk(d, schema, shape, toks, bag).reg)
    elif kind == 'item':
      args.append('I:' + pattern[0])
    elif kind == 'impl':
      toks = ['r' if t == '_' and n > 6 else t for t in toks]
      args.append('V:' + ('', '~', '^')[n % 3 if 'r' not in toks else 0]
                  + kd.items(['_' if t == 'r' else t for t in toks]))
    elif kind in ('shape', 'base'):
      args.append(f'{kind[0].upper()}:{kcast.shape_tok(shape)}')
    else:
      args.append(('...', 'T:slice', 'T:bag', 'T:shape', 'T:ellipsis',
                   'T:token')[n % 6])
    want.append((kind, schema, shape, toks, args[-1]))
  blob = d.call('z.enc', *args)
  data = d.call('z.bytes', blob)
  read = kwire.Reader(kd.unpct(data)).outputs()
  if away:
    o = kd.other()
    back = o.call('z.dec', o.call('z.blob', data)).split(' ')
  else:
    o = d
    back = d.call('z.dec', blob).split(' ')
  expect_eq(len(back), len(args), 'number of values')
  done = False
  for (kind, schema, shape, toks, arg), got, r in zip(want, back, read):
    if kind == 'slice':
      kpub.check(o, got, schema, shape, toks, 'decoded slice')
      for cmd in ('z.whole', 's.bag'):
        x, y = d.call(cmd, arg), o.call(cmd, got)
        expect_eq(y == '-' if cmd == 's.bag' else y,
                  x == '-' if cmd == 's.bag' else x, cmd)
      if len(args) == 1:
        expect_eq(o.call('z.items', got), d.call('z.items', arg),
                  'removed and unset values')
      bag = d.call('s.bag', arg)
      if o is d and (bag == '-' or d.call('b.mutable', bag) == '0'):
        expect_eq(o.call('z.fps', got), d.call('z.fps', arg), 'fingerprint')
      expect_eq(r[0], 'slice', 'stored kind')
      values = r[1][0][1] if shape else [r[1][0][1]]
      expect_eq([v if v != 'r' else '_' for v in values],
                [kwire.anon(t) for t in toks], 'stored values')
      expect_eq((r[1][1], r[1][2]),
                (('shape', shape), ('item', kwire.anon(schema))),
                'stored shape and schema')
      expect_eq(r[2], d.call('z.whole', arg) == '1', 'stored wholeness')
      done = done or any(t != '_' for t in toks)
    elif kind == 'impl':
      g = kd.parse_items(got[2:])
      expect_eq([t if t != 'r' else '_' for t in g],
                [t if t != 'r' else '_' for t in toks], 'decoded values')
      done = done or any(t not in '_r' for t in toks)
    else:
      expect_eq(got, arg, 'decoded value')
      if kind == 'item':
        expect_eq(r, ('item', kwire.anon(arg[2:])), 'stored item')
  return done


# --- the wire format --------------------------------------------------------

WIRE = st.tuples(kgen.alloc_specs('eeeldx', 5, (1, 2, 3, 9, 40)), kgraph.tapes)


def some_toks(t, ids, n, removed=True):
  """Values of a slice."""
  pool = [*kd.PRIMS, *kpub.MIXED, *ids[:3], *ids[-3:]]
  if t.chance(2):
    k = t.of(pool)[0]
    pool = [x for x in pool if x[0] == k]
  pool = [t.of(pool) for _ in range(6)]
  if t.chance(2):
    pool += ['_', 'r'] if removed else ['_']
  return [t.of(pool) for _ in range(n)]


def some_bag(t, al, ids):
  """Content of a bag, and its triples."""
  content = {'attrs': [], 'lists': [], 'dicts': []}
  triples = set()
  val = lambda v: '_' if v == 'r' else v
  for name in t.of((('a',), ('a', 'b'), ('b', kgen.NAMES[2], 'a'))):
    chunks = []
    for a in al:
      if a.kind == 'x' or t.chance(3):
        continue
      if a.size > 1 and t.chance(2):
        toks = some_toks(t, ids, a.size)
        if all(x == '_' for x in toks):
          continue
        chunks.append((a.first, toks))
        triples |= {f'a:{o}:{kd.pct(name)}:{val(v)}'
                    for o, v in zip(a.ids, toks) if v != '_'}
      else:
        for o in a.ids[:t.pick(4)]:
          v = some_toks(t, ids, 1, False)[0]
          chunks.append((o, v))
          triples.add(f'a:{o}:{kd.pct(name)}:{v}')
    if chunks:
      content['attrs'].append((name, chunks))
  for a in al:
    for o in a.ids[:t.pick(4)] if a.kind in 'ld' else ():
      if a.kind == 'l':
        v = [val(x) for x in some_toks(t, ids, t.pick(5))]
        content['lists'].append((o, v))
        triples.add(f'l:{o}:{kd.items(v)}')
      else:
        keys = dict.fromkeys(khist.canon(t.of((*khist.KEYS, *ids[:4])))
                             for _ in range(t.pick(5)))
        vs = some_toks(t, ids, len(keys))
        m = {k: val(v) for k, v in zip(keys, vs)}
        content['dicts'].append((o, m))
        triples |= {f'd:{o}:{k}:{v}' for k, v in m.items()}
  return content, triples


@check.clause(WIRE, n=1500, thorough=80000, native=True)
def written_elsewhere(c):
  """Messages of another writer are understood, in any valid layout."""
  specs, tape = c
  d = kd.driver()
  t = kgraph.Tape(tape)
  al = kgen.allocs(d, specs)
  ids = [o for a in al for o in a.ids]
  w = kwire.Writer(t)
  out, want = [], []
  for _ in range(1 + t.pick(3)):
    if t.chance(3):
      toks = some_toks(t, ids, t.pick(9))
      out.append(w.items(toks))
      want.append(('impl', toks))
    elif t.chance(2):
      n = t.pick(5)
      shape = t.of((((n,),), ((1,), (n,)), ()))
      toks = [x if x != 'r' else '_' for x in some_toks(
          t, [o for o in ids if o[2] != 'x'], n if shape else 1)]
      whole = t.of((None, False, True))
      out.append(w.slice('sOBJECT', shape, [
          x for x in toks], None, whole))
      want.append(('slice', shape, toks, bool(whole)))
    else:
      layers = [some_bag(t, al, ids) for _ in range(1 + t.pick(3))]
      frozen = t.of((None, False, True))
      many = len(layers) > 1
      regs = [w.bag(x, immutable=t.of((None, False, True)) if many else frozen,
                    bag_id=(t.pick(256), t.pick(256) + 1) if t.chance(3)
                    else None) for x, _ in layers]
      out.append(w.bag({}, regs, True) if many else regs[0])
      want.append(('bag', [x for _, x in layers],
                   '0' if many or frozen else '1'))
  blob = d.call('z.blob', kd.pct(w.blob(*out)))
  back = d.call('z.dec', blob).split(' ')
  done = False
  for x, got in zip(want, back, strict=True):
    if x[0] == 'impl':
      g = kd.parse_items(got[2:])
      expect_eq([y if y != 'r' else '_' for y in g],
                [y if y != 'r' else '_' for y in x[1]], 'values')
      if '_' in x[1] and 'r' in x[1]:
        expect_eq(g, x[1], 'removed and unset values')
      done = done or any(y not in '_r' for y in x[1])
    elif x[0] == 'slice':
      kpub.check(d, got, 'sOBJECT', x[1], x[2], 'slice')
      # A slice without a bag is not whole or whole alike.
      expect(d.call('z.whole', got) == '1' or not x[3], 'not whole')
    else:
      dumps = [set(p.split()) for p in d.call('b.dump', got).split('|')]
      layers = x[1] if len(x[1]) == 1 else [set(), *x[1]]
      expect_eq(d.call('b.mutable', got), x[2], 'mutable')
      expect_eq(len(dumps), len(layers), 'number of layers')
      known = set(ids)
      for a, b in zip(dumps, layers):
        a = {y for y in a if not (y[:2] == 'a:' and y.endswith(':_')
                                  and y.split(':')[1] not in known)}
        expect(a == b, f'bag: extra {sorted(a - b)[:5]} lost'
               f' {sorted(b - a)[:5]}')
        done = done or bool(b)
  return done


@check.clause(WIRE, n=500, thorough=30000, native=True)
def read_elsewhere(c):
  """What is stored means the same to another reader."""
  specs, tape = c
  d = kd.driver()
  t = kgraph.Tape(tape)
  w = khist.World(specs)
  d = w.d
  ids = [o for a in w.al for o in a.ids]
  for name in 'ab':
    for a in w.al:
      if a.kind != 'x' and t.chance(2):
        toks = [x for x in some_toks(t, ids, a.size)]
        if any(x != '_' for x in toks):
          d.call('i.setfull', w.regs[0], a.first, name, kd.items(toks))
  for a in w.al:
    for o in a.ids[:t.pick(4)]:
      if a.kind == 'l':
        d.call('i.lextend1', w.regs[0], o, kd.items(
            ['_' if x == 'r' else x for x in some_toks(t, ids, t.pick(5))]))
      elif a.kind == 'd':
        for _ in range(t.pick(4)):
          d.call('i.dset1', w.regs[0], o, t.of((*khist.KEYS, *ids[:4])),
                 t.of((*kd.PRIMS, *ids[:4], '_')))
  bag = d.call('z.frombag', w.regs[0])
  if t.chance(2):
    bag = d.call('b.freeze', bag)
  blob = d.call('z.enc', bag)
  shared = {x for y in d.call('z.shared', blob).split()
            for x in kwire.dump('a:' + y + ':_')}
  (got,) = kwire.Reader(kd.unpct(d.call('z.bytes', blob))).outputs()
  want = kwire.dump(d.call('b.dump', bag))
  diff = (got[1]['triples'] ^ want) - shared
  known = {kwire.anon(o) for o in ids}
  diff = {x for x in diff if not (
      x[:2] == 'a:' and x.endswith(':_') and x.split(':')[1] not in known)}
  expect(not diff, f'stored triples differ: {sorted(diff)[:6]}')
  expect_eq(got[1]['immutable'], d.call('b.mutable', bag) == '0', 'immutable')
  if got[1]['immutable']:
    expect_eq('%016x%016x' % got[1]['id'], d.call('z.fp', bag), 'id')
  return bool(want)


# --- malformed messages -----------------------------------------------------


def add_item(w):
  return w.item('i1')


def swap(v, k, new):
  v.input_value_indices[k] = new


def break_slice(w, t, i, v):
  """A slice is [values, shape, schema, bag]."""
  k = t.pick(8)
  if k == 0:
    del v.input_value_indices[t.pick(3):]
    return 'inputs missing'
  if k == 1:
    while len(v.input_value_indices) < 5:
      v.input_value_indices.append(w.bag({}))
    return 'too many inputs'
  if k == 2:
    swap(v, 0, v.input_value_indices[t.of((1,))])
    return 'values are a shape'
  if k == 3:
    swap(v, 1, t.of((v.input_value_indices[0], w.bag({}))))
    return 'shape is no shape'
  if k == 4:
    swap(v, 2, t.of((v.input_value_indices[1], w.item('i5'), w.item('tx'),
                     w.item('_'))))
    return 'schema is no schema'
  if k == 5:
    n = t.of((0, 1, 7))
    a = w.items(['i1'] * n)
    swap(v, 0, a)
    swap(v, 1, w.shape(((n + 1 + t.pick(3),),)))
    swap(v, 2, w.item('sINT32'))
    return 'size of the shape'
  if k == 6:
    a = w.items(['i1', t.of(('tx', 'l4', 'b1', 'p')), '_'])
    swap(v, 0, a)
    swap(v, 1, w.shape(((3,),)))
    swap(v, 2, w.item(t.of(('sINT32', 'sSTRING', 'sITEMID', 'sNONE'))))
    return 'values of another type'
  del v.input_value_indices[3:]
  v.input_value_indices.append(t.of((w.item('i1'), w.shape(()))))
  return 'bag is no bag'


def break_impl(w, t, i, v):
  p = kwire.koda(v).data_slice_impl_value
  if not p.HasField('data_slice_compact'):
    k = t.pick(3)
    if k == 0 and len(p.data_item_vector.values):
      p.data_item_vector.values[0].ClearField(
          p.data_item_vector.values[0].WhichOneof('value'))
      return 'no value'
    if k == 1:
      v.input_value_indices.append(w.expr('ezz'))
      return 'too many inputs'
    p.data_item_vector.values.add().expr_quote = True
    return 'no expression'
  q = p.data_slice_compact
  k = t.pick(10)
  if k == 9:
    q.types_buffer += bytes([10])
    q.dtype.append(t.of((-1, 9, 14, 127, 128, 256, 258, -255)))
    return 'no type'
  if k == 0:
    q.types_buffer += bytes([t.of((0, 12, 13, 100, 127, 128, 253))])
    return 'type'
  if k == 1:
    q.types_buffer += bytes([t.of((1, 2, 3, 4, 5, 6, 8, 9, 10, 11))])
    return 'too few values'
  if k == 2:
    kind = t.of('ilfdbtys')
    getattr(q, kwire.FIELDS[kind][0]).append(
        {'t': 'x', 'y': b'x', 'b': True}.get(kind, 1))
    return 'too many values'
  if k == 3:
    (q.object_id.hi if t.chance(2) else q.object_id.lo).append(1)
    return 'half an id'
  if k == 4:
    q.extra_part_count = t.of((-1, len(v.input_value_indices) + 1, 1 << 40))
    return 'extra parts'
  if k == 5:
    v.input_value_indices.insert(
        0, t.of((w.expr('ezz'), w.item('i1'), w.bytes(b''))))
    return 'too many inputs'
  if k == 6:
    data = type(q)(i32=[1, 2], text=['abc']).SerializeToString()
    bad = t.of((data[:-2], b'\xff\xff', b'\x12\x7f' + data))
    v.input_value_indices.append(w.bytes(bad))
    q.extra_part_count += 1
    return 'part is malformed'
  if k == 7:
    v.input_value_indices.append(add_item(w))
    q.extra_part_count += 1
    return 'part is no part'
  p.Clear()
  return 'no value'


def break_item(w, t, i, v):
  p = kwire.koda(v).internal_data_item_value
  k = t.pick(4)
  if k == 0:
    p.Clear()
    p.SetInParent()
    return 'no value'
  if k == 1:
    p.dtype = t.of((-1, -2, 9, 14, 100, 255, 256, 257, -250, 1 << 20))
    del v.input_value_indices[:]
    return 'no type'
  if k == 2:
    p.expr_quote = True
    del v.input_value_indices[:]
    if t.chance(2):
      v.input_value_indices.append(w.bytes(b'x'))
    return 'no expression'
  v.input_value_indices.append(w.expr('ezz'))
  return 'too many inputs'


def break_bag(w, t, i, v, al):
  p = kwire.koda(v).data_bag_value
  k = t.pick(14)
  n = len(v.input_value_indices)
  a, kinds = t.of(al), {x.kind: x for x in al}
  first = a.first
  big = [x for x in al if x.size > 1 and x.kind != 'x']
  if p.fallback_count:
    if k < 4:
      p.fallback_count = n + 1 + t.pick(3) * 1000
      return 'more layers than inputs'
    if k < 7:
      swap(v, t.pick(n), add_item(w))
      return 'layer is no bag'
    v.input_value_indices.append(w.items([]))
    q = p.lists.add()
    (q.list_id.hi, q.list_id.lo), q.values_subindex = kwire.num(first), n
    return 'layers and content'
  out = t.of((-1, n, n + 1, 1 << 30, -(1 << 31)))
  if k < 3:
    if k == 0:
      q = p.attrs.add(name='a').chunks.add()
      q.first_object_id.hi, q.first_object_id.lo = kwire.num(first)
      q.values_subindex = out
    elif k == 1:
      q = p.lists.add(values_subindex=out)
      q.list_id.hi, q.list_id.lo = kwire.num(first)
    else:
      v.input_value_indices.append(w.items([]))
      q = p.dicts.add(keys_subindex=n, values_subindex=n)
      q.dict_id.hi, q.dict_id.lo = kwire.num(first)
      setattr(q, t.of(('keys_subindex', 'values_subindex')),
              out if out != n else n + 1)
    return 'index of the values'
  if k == 3:
    p.fallback_count = 1 + t.pick(3)
    if not (p.attrs or p.lists or p.dicts):
      del v.input_value_indices[:]
    return 'layers that are not there'
  bad = t.of((w.shape(()), w.bytes(b'x'), w.bag({})))
  v.input_value_indices.append(bad)
  if k < 6:
    q = p.attrs.add(name='a').chunks.add(values_subindex=n)
    q.first_object_id.hi, q.first_object_id.lo = kwire.num(first)
    return 'values are none'
  swap(v, n, w.compact(['i1', 'i2']))
  v.input_value_indices.append(w.compact(['i1']))
  if k < 8 and big:
    x = t.of(big)
    q = p.attrs.add(name='a').chunks.add(values_subindex=n)
    q.first_object_id.hi, q.first_object_id.lo = kwire.num(x.ids[1])
    return 'values from the middle'
  if k < 10:
    x = t.of([y for y in al if y.kind != 'x'] or [None])
    if x is not None:
      # One more than there is room for.
      size = 1
      while size < x.size:
        size *= 2
      swap(v, n, w.compact(['i1'] * (size + 1)))
      q = p.attrs.add(name='a').chunks.add(values_subindex=n)
      q.first_object_id.hi, q.first_object_id.lo = kwire.num(x.first)
      return 'too many values'
  if k < 11:
    x = t.of([y for y in al if y.kind != 'l'] or [None])
    if x is not None:
      q = p.lists.add(values_subindex=n)
      q.list_id.hi, q.list_id.lo = kwire.num(x.first)
      return 'not a list'
  if ('d' in kinds or 'x' in kinds) and t.chance(2):
    x = kinds['d' if 'x' not in kinds or 'd' in kinds and t.chance(2) else 'x']
    ks = t.of((['ta', 'tb', 'tc'], ['ta'])
              + ((['ta', 'i1', 'tb'],) if x.kind == 'd' else ()))
    vs = [t.of(('sINT32', x.first)) for _ in range(t.pick(4))]
    if len(vs) == len(ks):
      vs.pop()
    if t.chance(3) and x.kind == 'd':
      vs += ['sINT32'] * 4
    swap(v, n, w.items(ks))
    swap(v, n + 1, w.items(vs))
    q = p.dicts.add(keys_subindex=n, values_subindex=n + 1)
    q.dict_id.hi, q.dict_id.lo = kwire.num(x.first)
    if x.kind == 'd' or x.capacity == 1:
      return 'keys without values'
    # Dicts of big allocations of schemas are not stored.
    del p.dicts[-1:]
  x = t.of([y for y in al if y.kind not in 'dx'] or [None])
  if x is None:
    p.lists.add(values_subindex=n)
    return 'not a list'
  q = p.dicts.add(keys_subindex=n, values_subindex=n)
  q.dict_id.hi, q.dict_id.lo = kwire.num(x.first)
  return 'not a dict'


@check.clause(WIRE, n=2000, thorough=100000, native=True)
def malformed(c):
  """Messages that mean nothing are refused; nothing else happens."""
  specs, tape = c
  d = kd.driver()
  t = kgraph.Tape(tape)
  al = kgen.allocs(d, specs)
  ids = [o for a in al for o in a.ids]
  w = kwire.Writer(t)
  plain = [x for x in some_toks(t, ids, 4) if x != 'r'] or ['i1']
  kind = t.of(('slice', 'impl', 'item', 'bag', 'bag', 'layers'))
  if kind == 'slice':
    n = t.pick(5)
    i = w.slice('sOBJECT', ((n,),), [
        x if x[0] not in 'rsox' else '_' for x in some_toks(t, [], n)])
    why = break_slice(w, t, i, w.c.values[i])
  elif kind == 'impl':
    i = w.items(some_toks(t, ids, t.pick(7)))
    why = break_impl(w, t, i, w.c.values[i])
  elif kind == 'item':
    i = w.item(plain[0])
    why = break_item(w, t, i, w.c.values[i])
  elif kind == 'bag':
    i = w.bag(some_bag(t, al, ids)[0])
    why = break_bag(w, t, i, w.c.values[i], al)
  else:
    i = w.bag({}, [w.bag(some_bag(t, al, ids)[0])
                   for _ in range(1 + t.pick(3))])
    why = break_bag(w, t, i, w.c.values[i], al)
  vp.label(f'{kind}: {why}')
  # The message has its values before they are used.
  blob = d.call('z.blob', kd.pct(w.sorted(i)))
  expect(d.fails('z.dec', blob), f'{kind} is accepted: {why}')
  return True


SIZES = st.sampled_from((1, 7, 1000, 70000, 300000, 1100000, 2200000))
RUNS = st.lists(st.tuples(st.sampled_from((1, 2, 3, 50, 5000, 400000)),
                          st.sampled_from('ilfdbptTyYoOs_')),
                min_size=1, max_size=4)


@check.clause(st.tuples(SIZES, RUNS), n=24, thorough=600, native=True,
              budget_s=150, hang_s=300)
def big(c):
  """Values of many megabytes are stored in parts, and all come back."""
  n, runs = c
  # Long texts: not too many of them.
  cost = sum(k * {'T': 2000, 'Y': 500, 't': 30, 'y': 20}.get(t, 10)
             for k, t in runs) / sum(k for k, _ in runs)
  n = max(1, min(n, int(3e7 / cost)))
  d = kd.driver()
  g = [n, d.call('alloc', 'e', n).split()[0], *(f'{k}{t}' for k, t in runs)]
  s = d.call('z.big', *g)
  blob = d.call('z.enc', s)
  parts = int(d.call('z.parts', blob))
  if parts:
    vp.label('in parts')
  back = d.call('z.dec', blob)
  expect_eq(d.call('z.bigcheck', back, *g), 'ok', 'decoded values')
  return n >= 1000 and any(t != '_' for _, t in runs)


if __name__ == '__main__':
  check.main()
