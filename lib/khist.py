"""Generated histories over DataBagImpl, compared with the model in kbag.

A case is {'allocs': specs, 'ops': [...]}; `World` runs it against the driver
and the model.  After every step something is read back; `sweep` compares the
whole content of all bags at the end, including those that were forked before
and must not have changed.
"""
import kbag
import kcast
import kd
import kgen
import vp
from vp import st, expect_eq, expect

NAMES = kgen.NAMES
KEYS = ('i0', 'i1', 'l0', 'l1', 't', 'ta', 'tb', 'ya', 'b0', 'b1', 'p',
        'sINT32')
BAD_KEYS = ('f3f800000', 'd3ff0000000000000', 'eL1', '_')

bag = st.integers(0, 30)
name = st.sampled_from(NAMES)
ids1 = kgen.one_ids()
idsn = kgen.id_specs()
fbs = st.lists(bag, max_size=2)
idx = st.one_of(st.integers(-4, 8), st.integers(-4, 8), st.none())
idxs = st.lists(idx, min_size=1, max_size=5)
rng = st.tuples(st.integers(-5, 8), st.one_of(st.none(), st.integers(-5, 8)))
pat = kgen.patterns()
val = kgen.values()
groups = st.lists(st.integers(0, 4), min_size=1, max_size=4)
style = st.integers(0, 2)
keypat = st.one_of(
    st.lists(st.sampled_from(KEYS), min_size=1, max_size=5),
    st.lists(st.sampled_from(('ta', 'tb', 't', 'tc')), min_size=1, max_size=4),
    st.lists(st.one_of(st.sampled_from(KEYS + ('_',)), ids1), min_size=1,
             max_size=4))
key1 = st.one_of(st.sampled_from(KEYS), st.sampled_from(KEYS), ids1,
                 st.sampled_from(BAD_KEYS))


def tup(kind, *parts):
  return st.tuples(st.just(kind), *parts)


FORKS = [tup('fork', bag) for _ in range(5)]
ATTR_OPS = [
    tup('a.set', bag, idsn, name, pat, style),
    tup('a.set', bag, idsn, name, pat, style),
    tup('a.set1', bag, ids1, name, val),
    tup('a.unit', bag, idsn),
    tup('a.full', bag, ids1, name, pat,
        st.lists(st.integers(0, 2), min_size=1, max_size=4)),
    tup('a.create', bag, st.integers(0, 70),
        st.lists(pat, min_size=1, max_size=3)),
]
ATTR_READS = [
    tup('a.get', bag, fbs, idsn, name, style),
    tup('a.get1', bag, fbs, ids1, name),
]
LIST_OPS = [
    tup('l.append', bag, idsn, pat, style),
    tup('l.append1', bag, ids1, val),
    tup('l.extend', bag, idsn, groups, pat),
    tup('l.extend1', bag, ids1, st.integers(0, 12), pat),
    tup('l.set', bag, idsn, idxs, pat),
    tup('l.set1', bag, ids1, st.integers(-4, 8), val),
    tup('l.replace', bag, idsn, rng, groups, pat),
    tup('l.replace1', bag, ids1, rng, st.integers(0, 4), pat),
    tup('l.remove', bag, idsn, rng),
    tup('l.remove1', bag, ids1, rng),
    tup('l.removeidx', bag, idsn, idxs),
    tup('l.pop', bag, idsn, idxs),
    tup('l.pop1', bag, ids1, st.integers(-4, 8)),
]
LIST_READS = [
    tup('l.get', bag, fbs, idsn, idxs),
    tup('l.get1', bag, fbs, ids1, st.integers(-4, 8)),
    tup('l.size', bag, fbs, idsn, st.booleans()),
    tup('l.size1', bag, fbs, ids1),
    tup('l.explode', bag, fbs, idsn, rng),
    tup('l.explode1', bag, fbs, ids1, rng),
]
DICT_OPS = [
    tup('d.set', bag, idsn, keypat, pat, style),
    tup('d.set', bag, idsn, keypat, pat, style),
    tup('d.set1', bag, ids1, key1, val),
    tup('d.set1', bag, ids1, key1, val),
    tup('d.clear', bag, idsn),
    tup('d.clear1', bag, ids1),
]
DICT_READS = [
    tup('d.get', bag, fbs, idsn, keypat, style),
    tup('d.get1', bag, fbs, ids1, key1),
    tup('d.keys', bag, fbs, idsn),
    tup('d.keys1', bag, fbs, ids1),
    tup('d.size', bag, fbs, idsn),
    tup('d.size1', bag, fbs, ids1),
]
SCHEMA_OPS = [
    tup('s.set', bag, idsn, name, pat),
    tup('s.setc', bag, idsn, name, val),
    tup('s.set1', bag, ids1, name, val),
    tup('s.del', bag, idsn, name),
    tup('s.del1', bag, ids1, name),
    tup('s.create', bag, st.lists(st.tuples(name, val), min_size=1, max_size=3)),
    tup('s.uu', bag, st.sampled_from(('', 'seed')),
        st.lists(st.tuples(name, val), max_size=3)),
    tup('s.fields', bag, idsn,
        st.lists(st.tuples(name, val), min_size=1, max_size=3)),
    tup('s.alloc', bag, ids1, st.integers(1, 300),
        st.lists(st.tuples(name, val), min_size=1, max_size=3)),
    tup('s.obj', bag, idsn, idsn),
]
SCHEMA_READS = [
    tup('s.get', bag, fbs, idsn, name),
    tup('s.get1', bag, fbs, ids1, name),
    tup('s.attrs', bag, fbs, ids1),
    tup('s.objs', bag, fbs, idsn),
]

MERGES = [x for _ in range(3) for x in (
    tup('merge', bag, bag, st.sampled_from(('rr', 'kk', 'oo'))),
    tup('merge', bag, bag, st.sampled_from(('kk', 'oo', 'ko', 'ok', 'rk',
                                            'or'))),
    tup('update', bag, bag))]
MERGES += [tup('new'), tup('new')]


def differ(a, b):
  """Whether two values conflict; None when numbers of two types are equal."""
  if a == b:
    return False
  if a[0] in 'ilfd' and b[0] in 'ilfd':
    x, y = kcast.num(a), kcast.num(b)
    if x != x and y != y:
      return False
    if x == y:
      return None
  return True


def merged(dst, src, data, schema):
  """(model, conflict): the result of merging; conflict may be None."""
  out = dst.fork()
  conflict = False

  def put(m, k, v, policy):
    nonlocal conflict
    if k in m and policy != 'o':
      if policy == 'r':
        c = (m[k] != v) if 'r' in (m[k], v) else differ(m[k], v)
        conflict = conflict or c if conflict is not None else None
      return
    m[k] = v

  for k, v in src.attrs.items():
    put(out.attrs, k, v, data)
  for l, v in src.lists.items():
    old = out.lists.get(l)
    if old is None or data == 'o':
      out.lists[l] = list(v)
    elif data == 'r':
      if len(old) != len(v):
        conflict = True if conflict is not None else None
      else:
        for a, b in zip(old, v):
          put({0: a}, 0, b, 'r')
  for part, policy in (('dicts', data), ('schemas', schema)):
    for i, m in getattr(src, part).items():
      mine = getattr(out, part).setdefault(i, {})
      for k, v in m.items():
        put(mine, k, v, policy)
  return out, conflict


def histories(ops, kinds, max_ops=14, min_ops=3, max_allocs=5,
              sizes=kgen.SIZES):
  return st.fixed_dictionaries({
      'allocs': kgen.alloc_specs(kinds, max_allocs, sizes),
      'ops': st.lists(st.one_of(*ops), min_size=min_ops, max_size=max_ops)})


def canon(key):
  """INT32 and INT64 keys of the same number are the same key."""
  return 'l' + key[1:] if key[0] == 'i' else key


def normalise(keys, values):
  """Equal keys get the value of their last occurrence."""
  last = dict(zip(keys, values))
  return [last[k] for k in keys]


class World:

  def __init__(self, specs, n_bags=1):
    self.d = kd.driver()
    self.al = kgen.allocs(self.d, specs)
    self.pool = kgen.Pool(self.al)
    self.regs = []
    self.models = []
    self.writable = []
    self.parent = []
    self.writes = self.merges = self.updates = self.conflicts = 0
    self.turn = len(specs)
    self.fuzzy = []  # Lists that may or may not be set, per bag.
    for _ in range(n_bags):
      self.new_bag()

  def sl(self, toks):
    """The slice as an argument, built in different ways."""
    self.turn += 1
    return kgen.slice_arg(toks, self.turn % 3)

  def new_bag(self):
    self._add(self.d.call('i.new'), kbag.Bag(), set(), None)

  def _add(self, reg, model, fuzzy, parent):
    self.regs.append(reg)
    self.models.append(model)
    self.fuzzy.append(fuzzy)
    self.writable.append(True)
    self.parent.append(parent)

  def fork(self, i):
    self._add(self.d.call('i.fork', self.regs[i]), self.models[i].fork(),
              set(self.fuzzy[i]), i)
    self.writable[i] = False
    return len(self.regs) - 1

  def w(self, b):
    """A bag to write to."""
    c = [i for i, x in enumerate(self.writable) if x]
    return c[b % len(c)]

  def r(self, b, fb):
    """A bag and fallbacks to read from."""
    i = [b % len(self.regs)]
    for f in fb:
      if f % len(self.regs) not in i:
        i.append(f % len(self.regs))
    return i, ','.join(self.regs[k] for k in i), [self.models[k] for k in i]

  def ids(self, spec, kinds=None):
    return kgen.ids(spec, self.al, kinds)

  def one(self, spec, kinds=None):
    return kgen.one_id(spec, self.al, kinds)

  def keytok(self, k):
    return k if isinstance(k, str) else kgen.one_id(k, self.al)

  def run(self, ops):
    for op in ops:
      if op[0] == 'fork':
        self.fork(self.w(op[1]))
      else:
        getattr(self, op[0].replace('.', '_'))(*op[1:])

  # -- whole bags ----------------------------------------------------------

  def new(self):
    if len(self.regs) < 6:
      self.new_bag()

  def merge(self, b, src, policy):
    i, j = self.w(b), src % len(self.regs)
    if self.fuzzy[i] or self.fuzzy[j]:
      return
    out, conflict = merged(self.models[i], self.models[j], *policy)
    if conflict is None:
      return
    if conflict:
      # What is left behind is not specified, so that a fork is used.
      self.fork(i)
      reg = self.regs[-1]
      vp.expect(self.d.fails('i.merge', reg, self.regs[j], policy),
                'a conflict is not reported')
      self.regs[-1] = self.d.call('i.fork', self.regs[i])
      self.conflicts += 1
      return
    self.d.call('i.merge', self.regs[i], self.regs[j], policy)
    self.models[i] = out
    self.merges += i != j and not self.models[j].empty()

  def update(self, a, b):
    i, j = a % len(self.regs), b % len(self.regs)
    if self.fuzzy[i] or self.fuzzy[j]:
      return
    out, _ = merged(self.models[i], self.models[j], 'o', 'o')
    u = self.d.call('i.update', self.regs[i], self.regs[j])
    got = {}
    for reg in (u, self.regs[i]):
      for k, v in self.dump_of(reg).items():
        got.setdefault(k, v)
    self.compare(got, out, i, 'update')
    self.updates += 1

  # -- attributes ----------------------------------------------------------

  def a_set(self, b, spec, nm, pattern, sty):
    i = self.w(b)
    oids = self.ids(spec)
    vals = normalise(oids, kgen.fill(pattern, len(oids), self.pool))
    self.d.call('i.set', self.regs[i], kgen.slice_arg(oids, sty), kd.pct(nm),
                kgen.slice_arg(vals, sty))
    kbag.set_attr(self.models[i], oids, nm, vals)
    self.writes += any(o != '_' for o in oids)

  def a_set1(self, b, spec, nm, v):
    i = self.w(b)
    oid, v = self.one(spec), self.pool.tok(v)
    self.d.call('i.set1', self.regs[i], oid, kd.pct(nm), v)
    kbag.set_attr(self.models[i], [oid], nm, [v])
    self.writes += 1

  def a_unit(self, b, spec):
    i = self.w(b)
    oids = self.ids(spec)
    if self.parent[i] is not None:
      return  # Not supported.
    got = kd.parse_items(self.d.call('i.setunit', self.regs[i],
                                     self.sl(oids), 'unit'))
    m = self.models[i]
    new = []
    for o in oids:
      if o != '_' and (o, 'unit') not in m.attrs and o not in new:
        new.append(o)
    expect_eq(sorted(x for x in got if x != '_'), sorted(new),
              'objects that did not have the unit attribute')
    for o in oids:
      if o != '_':
        m.attrs[(o, 'unit')] = 'p'
    self.writes += 1

  def a_full(self, b, spec, nm, pattern, holes):
    """Values of a whole allocation."""
    i = self.w(b)
    al = self.al[spec[0] % len(self.al)]
    vals = kgen.fill(pattern, al.size, self.pool)
    out = []
    for k, v in enumerate(vals):
      h = holes[k % len(holes)]
      out.append('_' if h == 1 else 'r' if h == 2 or v == '_' else v)
    if all(v == "_" for v in out):
      return  # Treated as nothing to do.
    self.d.call('i.setfull', self.regs[i], al.first, kd.pct(nm), kd.items(out))
    for o, v in zip(al.ids, out):
      if v != '_':
        self.models[i].attrs[(o, nm)] = v
    self.writes += 1

  def a_create(self, b, n, pats):
    i = self.w(b)
    args = []
    cols = {}
    for nm, p in zip(NAMES, pats):
      cols[nm] = kgen.fill(p, n, self.pool)
      args.append(f'{kd.pct(nm)}={self.sl(cols[nm])}')
    got = kd.parse_items(self.d.call('i.create', self.regs[i], *args))
    expect_eq(len(got), n, 'number of created objects')
    old = {o for a in self.al for o in a.ids}
    expect(len(set(got)) == n and not old & set(got) and '_' not in got,
           'created objects are not new', got=got)
    for nm, vals in cols.items():
      kbag.set_attr(self.models[i], got, nm, vals)
    if n:
      a = kd.Alloc.__new__(kd.Alloc)
      a.kind, a.size, a.first, a.ids = 'e', n, got[0], got
      self.al.append(a)

  def a_get(self, b, fb, spec, nm, sty):
    _, regs, ms = self.r(b, fb)
    oids = self.ids(spec)
    got = self.d.call('i.get', regs, kgen.slice_arg(oids, sty), kd.pct(nm))
    expect_eq(kd.parse_items(got), [kbag.get_attr(ms, o, nm) for o in oids],
              f'attribute {nm!r}')

  def a_get1(self, b, fb, spec, nm):
    _, regs, ms = self.r(b, fb)
    oid = self.one(spec)
    expect_eq(self.d.call('i.get1', regs, oid, kd.pct(nm)),
              kbag.get_attr(ms, oid, nm), f'attribute {nm!r} of one object')
    if oid != '_':
      want = kbag.get_attr(ms, oid, nm, removed=True)
      expect_eq(self.d.call('i.getrm1', regs, oid, kd.pct(nm)), want,
                f'attribute {nm!r} of one object, removed or unset')

  # -- lists ---------------------------------------------------------------

  def _l(self, i, lid, create=True):
    """The list of the model, to modify."""
    return self.models[i].lists.get(lid)

  def _lput(self, i, lid, new, changed):
    m = self.models[i]
    if lid == '_':
      return
    if lid in m.lists or changed:
      m.lists[lid] = new
    else:
      self.fuzzy[i].add(lid)

  def _old(self, i, lid):
    return list(self.models[i].lists.get(lid, ()))

  def l_append(self, b, spec, pattern, sty):
    i = self.w(b)
    lids = self.ids(spec, 'l')
    vals = kgen.fill(pattern, len(lids), self.pool)
    self.d.call('i.lappend', self.regs[i], kgen.slice_arg(lids, sty),
                kgen.slice_arg(vals, sty))
    for lid, v in zip(lids, vals):
      self._lput(i, lid, self._old(i, lid) + [v], True)
    self.writes += 1

  def l_append1(self, b, spec, v):
    i = self.w(b)
    lid, v = self.one(spec, 'l'), self.pool.tok(v)
    self.d.call('i.lappend1', self.regs[i], lid, v)
    self._lput(i, lid, self._old(i, lid) + [v], True)
    self.writes += 1

  def _grouped(self, lids, sizes, pattern):
    sizes = [sizes[k % len(sizes)] for k in range(len(lids))]
    vals = kgen.fill(pattern, sum(sizes), self.pool)
    it = iter(vals)
    return sizes, vals, [[next(it) for _ in range(s)] for s in sizes]

  def l_extend(self, b, spec, sizes, pattern):
    i = self.w(b)
    lids = self.ids(spec, 'l')
    sizes, vals, gs = self._grouped(lids, sizes, pattern)
    self.d.call('i.lextend', self.regs[i], self.sl(lids), self.sl(vals),
                kd.edge(sizes))
    for lid, g in zip(lids, gs):
      self._lput(i, lid, self._old(i, lid) + g, bool(g))
    self.writes += 1

  def l_extend1(self, b, spec, n, pattern):
    i = self.w(b)
    lid, vals = self.one(spec, 'l'), kgen.fill(pattern, n, self.pool)
    self.d.call('i.lextend1', self.regs[i], lid, self.sl(vals))
    self._lput(i, lid, self._old(i, lid) + vals, bool(vals))
    self.writes += 1

  @staticmethod
  def _assign(old, k, v):
    if k is not None and -len(old) <= k < len(old):
      old[k] = v
      return True
    return False

  def l_set(self, b, spec, ks, pattern):
    i = self.w(b)
    lids = self.ids(spec, 'l')
    ks = [ks[j % len(ks)] for j in range(len(lids))]
    vals = kgen.fill(pattern, len(lids), self.pool)
    self.d.call('i.lset', self.regs[i], self.sl(lids), kd.ints(ks),
                self.sl(vals))
    for lid, k, v in zip(lids, ks, vals):
      old = self._old(i, lid)
      self._lput(i, lid, old, self._assign(old, k, v))
    self.writes += 1

  def l_set1(self, b, spec, k, v):
    i = self.w(b)
    lid, v = self.one(spec, 'l'), self.pool.tok(v)
    self.d.call('i.lset1', self.regs[i], lid, k, v)
    old = self._old(i, lid)
    self._lput(i, lid, old, self._assign(old, k, v))
    self.writes += 1

  @staticmethod
  def _rng(r):
    return r[0], '-' if r[1] is None else r[1]

  @staticmethod
  def _splice(old, r, new):
    s, e = kbag.clamp_range(r, len(old))
    e = max(s, e)
    return old[:s] + new + old[e:], bool(new) or e > s

  def l_replace(self, b, spec, r, sizes, pattern):
    i = self.w(b)
    lids = self.ids(spec, 'l')
    sizes, vals, gs = self._grouped(lids, sizes, pattern)
    self.d.call('i.lreplace', self.regs[i], self.sl(lids), *self._rng(r),
                self.sl(vals), kd.edge(sizes))
    for lid, g in zip(lids, gs):
      self._lput(i, lid, *self._splice(self._old(i, lid), r, g))
    self.writes += 1

  def l_replace1(self, b, spec, r, n, pattern):
    i = self.w(b)
    lid, vals = self.one(spec, 'l'), kgen.fill(pattern, n, self.pool)
    self.d.call('i.lreplace1', self.regs[i], lid, *self._rng(r),
                self.sl(vals))
    self._lput(i, lid, *self._splice(self._old(i, lid), r, vals))
    self.writes += 1

  def l_remove(self, b, spec, r):
    i = self.w(b)
    lids = self.ids(spec, 'l')
    self.d.call('i.lremove', self.regs[i], self.sl(lids), *self._rng(r))
    for lid in lids:
      self._lput(i, lid, *self._splice(self._old(i, lid), r, []))
    self.writes += 1

  def l_remove1(self, b, spec, r):
    i = self.w(b)
    lid = self.one(spec, 'l')
    self.d.call('i.lremove1', self.regs[i], lid, *self._rng(r))
    self._lput(i, lid, *self._splice(self._old(i, lid), r, []))
    self.writes += 1

  @staticmethod
  def _pop(old, k):
    if k is not None and -len(old) <= k < len(old):
      return old.pop(k), True
    return '_', False

  def l_removeidx(self, b, spec, ks):
    i = self.w(b)
    lids = self.ids(spec, 'l')
    ks = [ks[j % len(ks)] for j in range(len(lids))]
    self.d.call('i.lremoveidx', self.regs[i], self.sl(lids), kd.ints(ks))
    for lid, k in zip(lids, ks):
      old = self._old(i, lid)
      self._lput(i, lid, old, self._pop(old, k)[1])
    self.writes += 1

  def l_pop(self, b, spec, ks):
    i = self.w(b)
    lids = self.ids(spec, 'l')
    ks = [ks[j % len(ks)] for j in range(len(lids))]
    got = self.d.call('i.lpop', self.regs[i], self.sl(lids), kd.ints(ks))
    want = []
    for lid, k in zip(lids, ks):
      old = self._old(i, lid)
      v, ch = self._pop(old, k)
      want.append(v if lid != '_' else '_')
      self._lput(i, lid, old, ch)
    expect_eq(kd.parse_items(got), want, 'popped values')
    self.writes += 1

  def l_pop1(self, b, spec, k):
    i = self.w(b)
    lid = self.one(spec, 'l')
    got = self.d.call('i.lpop1', self.regs[i], lid, k)
    old = self._old(i, lid)
    v, ch = self._pop(old, k)
    self._lput(i, lid, old, ch)
    expect_eq(got, v, 'popped value')
    self.writes += 1

  def _list_of(self, inds, lid):
    """The list as seen through fallbacks; None when unset, '?' unknown."""
    for k in inds:
      if lid in self.models[k].lists:
        return self.models[k].lists[lid]
      if lid in self.fuzzy[k] and len(inds) > 1:
        return '?'
    return None

  def _known(self, inds, lids):
    return [l for l in lids
            if l == '_' or self._list_of(inds, l) != '?']

  def l_get(self, b, fb, spec, ks):
    inds, regs, _ = self.r(b, fb)
    lids = self._known(inds, self.ids(spec, 'l'))
    ks = [ks[j % len(ks)] for j in range(len(lids))]
    got = self.d.call('i.lget', regs, self.sl(lids), kd.ints(ks))
    want = []
    for lid, k in zip(lids, ks):
      l = self._list_of(inds, lid) or []
      ok = k is not None and -len(l) <= k < len(l)
      want.append(l[k] if ok else '_')
    expect_eq(kd.parse_items(got), want, 'list items')

  def l_get1(self, b, fb, spec, k):
    inds, regs, _ = self.r(b, fb)
    lid = self.one(spec, 'l')
    l = self._list_of(inds, lid)
    if l == '?':
      return
    l = l or []
    expect_eq(self.d.call('i.lget1', regs, lid, k),
              l[k] if -len(l) <= k < len(l) else '_', 'list item')

  def l_size(self, b, fb, spec, zero):
    inds, regs, _ = self.r(b, fb)
    lids = self._known(inds, self.ids(spec, 'l'))
    got = kd.parse_items(self.d.call('i.lsize', regs, self.sl(lids),
                                     int(zero)))
    expect_eq(len(got), len(lids), 'number of sizes')
    for lid, g in zip(lids, got):
      if lid == '_':
        want = ('_',)
      else:
        l = self._list_of(inds, lid)
        if l is not None:
          want = (f'l{len(l)}',)
        elif zero:
          want = ('l0',)
        elif any(lid in self.fuzzy[k] for k in inds):
          want = ('_', 'l0')
        else:
          want = ('_',)
      expect(g in want, f'size of {lid}: {g}, expected {want}')

  def l_size1(self, b, fb, spec):
    inds, regs, _ = self.r(b, fb)
    lid = self.one(spec, 'l')
    l = self._list_of(inds, lid)
    if l == '?':
      return
    expect_eq(self.d.call('i.lsize1', regs, lid),
              '_' if lid == '_' else f'l{len(l or [])}', 'list size')

  def l_explode(self, b, fb, spec, r):
    inds, regs, _ = self.r(b, fb)
    lids = self._known(inds, self.ids(spec, 'l'))
    got = self.d.call('i.lexplode', regs, self.sl(lids), *self._rng(r))
    vals, sizes = [], []
    for lid in lids:
      l = self._list_of(inds, lid) or []
      s, e = kbag.clamp_range(r, len(l))
      part = l[s:e]
      vals += part
      sizes.append(len(part))
    expect_eq(got, f'{kd.items(vals)} {kd.edge(sizes)}', 'exploded lists')

  def l_explode1(self, b, fb, spec, r):
    inds, regs, _ = self.r(b, fb)
    lid = self.one(spec, 'l')
    l = self._list_of(inds, lid)
    if l == '?':
      return
    l = l or []
    s, e = kbag.clamp_range(r, len(l))
    expect_eq(kd.parse_items(self.d.call('i.lexplode1', regs, lid,
                                         *self._rng(r))), l[s:e],
              'exploded list')

  # -- dicts ---------------------------------------------------------------

  def _dput(self, i, did, k, v):
    if did == '_' or k in BAD_KEYS:
      return
    self.models[i].dicts.setdefault(did, {})[canon(k)] = 'r' if v == '_' else v

  def d_set(self, b, spec, keys, pattern, sty):
    i = self.w(b)
    dids = self.ids(spec, 'd')
    ks = [self.keytok(keys[j % len(keys)]) for j in range(len(dids))]
    vals = kgen.fill(pattern, len(dids), self.pool)
    self.d.call('i.dset', self.regs[i], kgen.slice_arg(dids, sty),
                kgen.slice_arg(ks, sty), kgen.slice_arg(vals, sty))
    for did, k, v in zip(dids, ks, vals):
      self._dput(i, did, k, v)
    self.writes += 1

  def d_set1(self, b, spec, k, v):
    i = self.w(b)
    did, k, v = self.one(spec, 'd'), self.keytok(k), self.pool.tok(v)
    bad = k in BAD_KEYS and did != '_'
    args = ('i.dset1', self.regs[i], did, k, v)
    if bad:
      expect(self.d.fails(*args), 'unsupported key accepted', k=k)
    else:
      self.d.call(*args)
      self._dput(i, did, k, v)
    self.writes += 1

  def d_clear(self, b, spec):
    i = self.w(b)
    dids = self.ids(spec, 'd')
    self.d.call('i.dclear', self.regs[i], self.sl(dids))
    self._dclear(i, dids)

  def d_clear1(self, b, spec):
    i = self.w(b)
    did = self.one(spec, 'd')
    self.d.call('i.dclear1', self.regs[i], did)
    self._dclear(i, [did])

  def _dclear(self, i, dids):
    for did in dids:
      c = self.models[i].dicts.get(did, {})
      for k in c:
        c[k] = 'r'
    self.writes += 1

  def d_get(self, b, fb, spec, keys, sty):
    _, regs, ms = self.r(b, fb)
    dids = self.ids(spec, 'd')
    ks = [self.keytok(keys[j % len(keys)]) for j in range(len(dids))]
    got = self.d.call('i.dget', regs, kgen.slice_arg(dids, sty),
                      kgen.slice_arg(ks, sty))
    expect_eq(kd.parse_items(got),
              [self._dget(ms, did, k) for did, k in zip(dids, ks)],
              'dict values')

  @staticmethod
  def _dget(ms, did, k):
    v = kbag.get_dict(ms, did).get(canon(k), '_')
    return '_' if v == 'r' else v

  def d_get1(self, b, fb, spec, k):
    _, regs, ms = self.r(b, fb)
    did, k = self.one(spec, 'd'), self.keytok(k)
    expect_eq(self.d.call('i.dget1', regs, did, k), self._dget(ms, did, k),
              'dict value')

  def _check_kv(self, d, keys, vals, what):
    keys = [canon(k) for k in keys]
    expect_eq(len(keys), len(set(keys)), f'{what}: repeated keys')
    got = dict(zip(keys, vals))
    want = {k: '_' if v == 'r' else v for k, v in d.items()}
    expect_eq(len(keys), len(vals), f'{what}: keys and values')
    expect_eq(got, want, what)

  def d_keys(self, b, fb, spec):
    _, regs, ms = self.r(b, fb)
    dids = self.ids(spec, 'd')
    ks, ke = self.d.call('i.dkeys', regs, self.sl(dids)).split()
    vs, ve = self.d.call('i.dvals', regs, self.sl(dids)).split()
    expect_eq(ke, ve, 'group sizes of keys and values')
    sizes = kd.parse_edge(ke)
    expect_eq(len(sizes), len(dids), 'number of dicts')
    ks, vs = kd.parse_items(ks), kd.parse_items(vs)
    p = 0
    for did, n in zip(dids, sizes):
      self._check_kv(kbag.get_dict(ms, did), ks[p:p + n], vs[p:p + n],
                     f'dict {did}')
      p += n

  def d_keys1(self, b, fb, spec):
    _, regs, ms = self.r(b, fb)
    did = self.one(spec, 'd')
    ks, ke = self.d.call('i.dkeys1', regs, did).split()
    vs, ve = self.d.call('i.dvals1', regs, did).split()
    ks, vs = kd.parse_items(ks), kd.parse_items(vs)
    expect(ke == ve == str(len(ks)), 'group sizes')
    self._check_kv(kbag.get_dict(ms, did), ks, vs, f'dict {did}')

  def d_size(self, b, fb, spec):
    _, regs, ms = self.r(b, fb)
    dids = self.ids(spec, 'd')
    got = kd.parse_items(self.d.call('i.dsize', regs, self.sl(dids)))
    expect_eq(got, ['_' if did == '_' else f'l{len(kbag.get_dict(ms, did))}'
                    for did in dids], 'dict sizes')

  def d_size1(self, b, fb, spec):
    _, regs, ms = self.r(b, fb)
    did = self.one(spec, 'd')
    expect_eq(self.d.call('i.dsize1', regs, did),
              '_' if did == '_' else f'l{len(kbag.get_dict(ms, did))}',
              'dict size')

  # -- schemas -------------------------------------------------------------

  SCHEMA_VALUES = ('sINT32', 'sSTRING', 'sFLOAT64', 'sOBJECT', 'sITEMID')

  def stok(self, v):
    """A schema."""
    if isinstance(v, tuple):
      s = self.one(v, 'x')
      if s != '_':
        return s
      v = v[1]
    return self.SCHEMA_VALUES[v % len(self.SCHEMA_VALUES)]

  def _sput(self, i, sid, nm, v):
    if sid != '_':
      self.models[i].schemas.setdefault(sid, {})[nm] = v

  def s_set(self, b, spec, nm, pattern):
    i = self.w(b)
    sids = self.ids(spec, 'x')
    vals = [self.stok(pattern[j % len(pattern)]) for j in range(len(sids))]
    vals = normalise(sids, vals)
    self.d.call('i.sset', self.regs[i], self.sl(sids), kd.pct(nm),
                self.sl(vals))
    for s, v in zip(sids, vals):
      self._sput(i, s, nm, v)
    self.writes += 1

  def s_setc(self, b, spec, nm, v):
    i = self.w(b)
    sids = self.ids(spec, 'x')
    v = self.stok(v)
    self.d.call('i.ssetc', self.regs[i], self.sl(sids), kd.pct(nm), v)
    for s in sids:
      self._sput(i, s, nm, v)
    self.writes += 1

  def s_set1(self, b, spec, nm, v):
    i = self.w(b)
    sid, v = self.one(spec, 'x'), self.stok(v)
    if sid == '_':
      return
    self.d.call('i.sset1', self.regs[i], sid, kd.pct(nm), v)
    self._sput(i, sid, nm, v)
    self.writes += 1

  def _has(self, i, sid, nm):
    return self.models[i].schemas.get(sid, {}).get(nm, 'r') != 'r'

  def s_del(self, b, spec, nm):
    i = self.w(b)
    sids = self.ids(spec, 'x')
    if not sids or all(s == '_' for s in sids):
      return
    args = ('i.sdel', self.regs[i], self.sl(sids), kd.pct(nm))
    if all(s == '_' or self._has(i, s, nm) for s in sids):
      self.d.call(*args)
      for s in sids:
        self._sput(i, s, nm, 'r')
      self.writes += 1
    else:
      # Some were perhaps removed before the error: look at what is there.
      expect(self.d.fails(*args), 'removing an absent schema attribute')
      for s in set(sids) - {'_'}:
        if self._has(i, s, nm):
          g = self.d.call('i.sgetm1', self.regs[i], s, kd.pct(nm))
          old = self.models[i].schemas[s][nm]
          expect(g in (old, 'r'), 'schema attribute after a failed removal')
          self._sput(i, s, nm, g)

  def s_del1(self, b, spec, nm):
    i = self.w(b)
    sid = self.one(spec, 'x')
    if sid == '_':
      return
    args = ('i.sdel1', self.regs[i], sid, kd.pct(nm))
    if self._has(i, sid, nm):
      self.d.call(*args)
      self._sput(i, sid, nm, 'r')
      self.writes += 1
    else:
      expect(self.d.fails(*args), 'removing an absent schema attribute')

  def _fields(self, fields):
    f = {}
    for nm, v in fields:
      f[nm] = self.stok(v)
    return f, [f'{kd.pct(k)}={v}' for k, v in f.items()]

  def _add_schema(self, sid):
    if not any(sid in a.ids for a in self.al):
      a = kd.Alloc.__new__(kd.Alloc)
      a.kind, a.size, a.first, a.ids = 'x', 1, sid, [sid]
      self.al.append(a)
      return True
    return False

  def s_create(self, b, fields):
    i = self.w(b)
    f, args = self._fields(fields)
    sid = self.d.call('i.screate', self.regs[i], *args)
    expect(self._add_schema(sid), 'the created schema is not new')
    for k, v in f.items():
      self._sput(i, sid, k, v)
    self.writes += 1

  def s_uu(self, b, seed, fields):
    i = self.w(b)
    f, args = self._fields(fields)
    sid = self.d.call('i.suu', self.regs[i], seed, *args)
    self._add_schema(sid)
    for k, v in f.items():
      self._sput(i, sid, k, v)
    other = self.d.call('i.suu', self.d.call('i.new'), seed, *args[::-1])
    expect_eq(other, sid, 'id of the uu schema')
    self.writes += 1

  def s_fields(self, b, spec, fields):
    i = self.w(b)
    sids = self.ids(spec, 'x')
    f, args = self._fields(fields)
    self.d.call('i.sfields', self.regs[i], self.sl(sids), *args)
    for s in sids:
      for k, v in f.items():
        self._sput(i, s, k, v)
    self.writes += 1

  def s_alloc(self, b, spec, n, fields):
    i = self.w(b)
    use = [a for a in self.al if a.kind == 'x' and a.size > 1]
    if not use:
      return
    al = use[spec[0] % len(use)]
    n = al.size
    f, args = self._fields(fields)
    self.d.call('i.sfieldsalloc', self.regs[i], al.first, n, *args)
    for s in al.ids[:n]:
      for k, v in f.items():
        self._sput(i, s, k, v)
    self.writes += 1

  def s_obj(self, b, spec, sspec):
    """Objects get schemas through the attribute __schema__."""
    i = self.w(b)
    oids = self.ids(spec, 'eld')
    sids = [s for s in self.ids(sspec, 'x') if s != '_'] or ['_']
    vals = normalise(oids, [sids[j % len(sids)] for j in range(len(oids))])
    self.d.call('i.set', self.regs[i], self.sl(oids), '__schema__',
                self.sl(vals))
    kbag.set_attr(self.models[i], oids, '__schema__', vals)
    self.writes += 1

  def s_objs(self, b, fb, spec):
    _, regs, ms = self.r(b, fb)
    oids = self.ids(spec, 'eld')
    want = [kbag.get_attr(ms, o, '__schema__') for o in oids]
    args = ('i.objschema', regs, self.sl(oids))
    if any(o != '_' and w == '_' for o, w in zip(oids, want)):
      expect(self.d.fails(*args), 'schema of an object without schema')
    else:
      expect_eq(kd.parse_items(self.d.call(*args)), want, 'object schemas')

  def s_get(self, b, fb, spec, nm):
    _, regs, ms = self.r(b, fb)
    sids = self.ids(spec, 'x')
    want = []
    for s in sids:
      v = kbag.get_schema(ms, s).get(nm, '_')
      want.append('_' if v == 'r' else v)
    got = self.d.call('i.sgetm', regs, self.sl(sids), kd.pct(nm))
    expect_eq(kd.parse_items(got), want, f'schema attribute {nm!r}')
    args = ('i.sget', regs, self.sl(sids), kd.pct(nm))
    if any(s != '_' and w == '_' for s, w in zip(sids, want)):
      expect(self.d.fails(*args), 'absent schema attribute was returned')
    else:
      expect_eq(kd.parse_items(self.d.call(*args)), want,
                f'schema attribute {nm!r}')

  def s_get1(self, b, fb, spec, nm):
    _, regs, ms = self.r(b, fb)
    sid = self.one(spec, 'x')
    if sid == '_':
      return
    want = kbag.get_schema(ms, sid).get(nm, '_')
    expect_eq(self.d.call('i.sgetm1', regs, sid, kd.pct(nm)), want,
              f'schema attribute {nm!r}')
    args = ('i.sget1', regs, sid, kd.pct(nm))
    if want in '_r':
      expect(self.d.fails(*args), 'absent schema attribute was returned')
    else:
      expect_eq(self.d.call(*args), want, f'schema attribute {nm!r}')

  def s_attrs(self, b, fb, spec):
    _, regs, ms = self.r(b, fb)
    sid = self.one(spec, 'x')
    if sid == '_':
      return
    s = kbag.get_schema(ms, sid)
    present = {'t' + kd.pct(k) for k, v in s.items() if v != 'r'}
    got = kd.parse_items(self.d.call('i.sattrsp', regs, sid))
    expect(len(got) == len(set(got)), 'repeated schema attributes', got=got)
    expect_eq(set(got), present, 'present schema attributes')
    got = kd.parse_items(self.d.call('i.sattrs', regs, sid))
    expect(len(got) == len(set(got)), 'repeated schema attributes', got=got)
    expect(set(got) >= present, 'schema attributes', got=got, want=present)

  # -- everything ----------------------------------------------------------

  def sweep(self, what='alds'):
    for i in range(len(self.regs)):
      self.sweep_bag(i, what)

  def sweep_bag(self, i, what='alds'):
    m = self.models[i]
    reg = self.regs[i]
    if 'a' in what:
      objs = [a for a in self.al if a.kind != 'x']
      oids = [o for a in objs for o in a.ids]
      for nm in NAMES + ('unit', '__schema__'):
        if not any(k[1] == nm for k in m.attrs) and i % 2:
          continue
        want = [kbag.get_attr([m], o, nm, removed=True) for o in oids]
        got = self.d.call('i.getrm', reg, self.sl(oids), kd.pct(nm))
        expect_eq(kd.parse_items(got), want, f'bag {i}: attribute {nm!r}')
        for a in objs[:3]:
          got = self.d.call('i.get', reg, self.sl(a.ids), kd.pct(nm))
          expect_eq(kd.parse_items(got),
                    [kbag.get_attr([m], o, nm) for o in a.ids],
                    f'bag {i}: attribute {nm!r} of an allocation')
    if 'l' in what:
      lids = [o for a in self.al if a.kind == 'l' for o in a.ids]
      if lids:
        got = self.d.call('i.lexplode', reg, self.sl(lids), 0, '-')
        ls = [m.lists.get(l, []) for l in lids]
        expect_eq(got, f'{kd.items([x for l in ls for x in l])}'
                       f' {kd.edge([len(l) for l in ls])}',
                  f'bag {i}: lists')
    if 'd' in what:
      dids = [o for a in self.al if a.kind == 'd' for o in a.ids]
      if dids:
        ks, ke = self.d.call('i.dkeys', reg, self.sl(dids)).split()
        vs, ve = self.d.call('i.dvals', reg, self.sl(dids)).split()
        expect_eq(ke, ve, 'group sizes')
        ks, vs, p = kd.parse_items(ks), kd.parse_items(vs), 0
        for did, n in zip(dids, kd.parse_edge(ke)):
          self._check_kv(m.dicts.get(did, {}), ks[p:p + n], vs[p:p + n],
                         f'bag {i}: dict {did}')
          p += n
    if 's' in what:
      sids = [o for a in self.al if a.kind == 'x' for o in a.ids]
      if sids:
        for nm in NAMES:
          want = []
          for s in sids:
            v = m.schemas.get(s, {}).get(nm, '_')
            want.append('_' if v == 'r' else v)
          got = self.d.call('i.sgetm', reg, self.sl(sids), kd.pct(nm))
          expect_eq(kd.parse_items(got), want,
                    f'bag {i}: schema attribute {nm!r}')
        for s in sids[:2] + sids[-2:]:
          got = set(kd.parse_items(self.d.call('i.sattrsp', reg, s)))
          expect_eq(got, {'t' + kd.pct(k)
                          for k, v in m.schemas.get(s, {}).items() if v != 'r'},
                    f'bag {i}: attributes of a schema')

  def dump(self, i):
    return self.dump_of(self.regs[i])

  def dump_of(self, reg):
    """Attributes and dicts as the bag lists them."""
    out = {}
    for t in self.d.call('i.dump', reg).split():
      f = t.split(':')
      key = tuple(f[:2]) if f[0] == 'l' else tuple(f[:3])
      if f[0] == 'd':
        key = ('d', f[1], canon(f[2]))
      expect(key not in out, 'listed twice', key=key)
      out[key] = f[-1]
    return out

  def check_dump(self, i):
    self.compare(self.dump(i), self.models[i], i, 'content')

  def compare(self, got, m, i, what):
    want = {}
    for (o, nm), v in m.attrs.items():
      want['a', o, kd.pct(nm)] = '_' if v == 'r' else v
    for l, v in m.lists.items():
      want['l', l] = kd.items(v)
    for d, c in m.dicts.items():
      for k, v in c.items():
        want['d', d, k] = '_' if v == 'r' else v
    for s, c in m.schemas.items():
      for k, v in c.items():
        want['d', s, 't' + kd.pct(k)] = '_' if v == 'r' else v
    for l in self.fuzzy[i]:
      if ('l', l) not in want:
        got.pop(('l', l), None)
    known = {o for a in self.al for o in a.ids}
    for k in [k for k, v in got.items()
              if k[0] == 'a' and v == '_' and k[1] not in known]:
      del got[k]  # Padding of an allocation.
    if got != want:
      diff = [(k, got.get(k), want.get(k)) for k in {*got, *want}
              if got.get(k) != want.get(k)]
      raise vp.Violation(f'{what} of bag {i} (got, want): {diff[:5]}')
