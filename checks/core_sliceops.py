"""C25: operators that select, order, group and join the items of slices."""
import kcast
import kd
import kjag
import kpub
import vp
from kcast import Bad
from vp import expect, expect_eq, st

check = vp.Check(
    'C25',
    'Slices of every value type (also mixed, partly and fully missing) with'
    ' generated jagged shapes through selection, reversal, deduplication,'
    ' grouping, sorting, lookup, concatenation, stacking and collapsing;'
    ' compared with nested Python lists. Non-trivial: the result has at least'
    ' two present items.',
    ['arolla is replaced by the stand-in in shims/kcore.'])


@check.setup
def _setup():
  kd.build('sliceops', ['kcore_public.cc', 'kcore_ops.cc'],
           groups=('internal', 'public', 'operators'))


POOL = {
    'sINT32': ('i0', 'i1', 'i-7', 'i2'),
    'sINT64': ('l0', 'l1', 'l9000000000'),
    'sFLOAT32': ('f3f800000', 'fc0000000', 'f80000000', 'f00000000',
                 'f7f800000'),
    'sFLOAT64': ('d3ff0000000000000', 'dbfb999999999999a'),
    'sBOOLEAN': ('b0', 'b1'),
    'sMASK': ('p',),
    'sSTRING': ('t', 'ta', 'tab', 'tb', 't%c3%a9', 'ta%00'),
    'sBYTES': ('y', 'ya', 'y%00%ff', 'yab'),
    'sEXPR': ('eL1', 'eL2'),
    'sSCHEMA': ('sINT32', 'sOBJECT'),
    'sITEMID': ('o0', 'o1', 'o2'),
}
SORTABLE = 'ilfdbpty'


def of(t, gaps=True):
  return st.tuples(
      st.sampled_from((t, t, t, 'sOBJECT' if t not in ('sITEMID', 'sSCHEMA')
                       else t)),
      st.lists(st.sampled_from(POOL[t] + ('_',) * gaps), min_size=1,
               max_size=7))


def typed(keys=tuple(POOL)):
  mixed = st.tuples(
      st.just('sOBJECT'),
      st.lists(st.sampled_from(tuple(v for k in keys for v in POOL[k][:3]
                                     if k not in ('sITEMID', 'sSCHEMA'))
                               + ('_',)), min_size=2, max_size=7))
  return st.one_of(st.sampled_from(keys).flatmap(of),
                   st.sampled_from(keys).flatmap(of), mixed,
                   st.tuples(st.sampled_from(('sNONE', 'sINT32', 'sOBJECT')),
                             st.just(['_'])))


def slices(max_rank=3, keys=tuple(POOL)):
  return st.tuples(typed(keys), st.one_of(
      kpub.shape_specs(max_rank, 1, first=(3, 5, 2, 1, 9, 0)),
      kpub.shape_specs(max_rank, 2, first=(2, 3, 1))))


def make(d, spec, shape=None, ids=None):
  (schema, pattern), sh = spec if shape is None else (spec, None)
  shape = kpub.shape_of(sh) if shape is None else shape
  ids = ids or kd.Alloc(d, 'e', 3)
  items = [ids[int(t[1])] if t in ('o0', 'o1', 'o2') else t
           for t in kpub.fill(pattern, kcast.size(shape))]
  return kpub.mk(d, schema, shape, items)


def key(t):
  """Equal values have equal keys."""
  if t[0] in 'il':
    return ('int', int(t[1:]))
  if t[0] in 'fd':
    return ('float', kcast.num(t))
  return (t[0], t)


def order(t):
  if t[0] in 'ilfd':
    return kcast.num(t)
  if t[0] in 'ty':
    return kd.unpct(t[1:])
  return t


def flag(d, b):
  return kpub.mk(d, 'sBOOLEAN', (), ['b1' if b else 'b0']).reg


def outcome(fn, *args):
  try:
    return fn(*args)
  except Bad:
    return None


def agree(d, call, v, want, what):
  if want is None:
    expect(d.fails(*call), what)
    return
  kpub.check(d, d.call(*call), v.schema, want[1], want[0], what)


def present(items):
  return sum(t != '_' for t in items)


# --- selection --------------------------------------------------------------


@check.clause(st.tuples(slices(4), st.lists(st.booleans(), min_size=1,
                                            max_size=6),
                        st.integers(0, 5), st.integers(0, 9), st.booleans(),
                        st.sampled_from(('sMASK', 'sMASK', 'sOBJECT'))),
              n=1200, thorough=30000, budget_s=20)
def select(case):
  spec, pattern, k, odd, grow, schema = case
  d = kd.driver()
  v = make(d, spec)
  mshape = kpub.cut(v.shape, k)
  if odd == 8 and mshape:
    mshape = mshape[:-1] + (tuple(x + 1 for x in mshape[-1]),)
  if odd == 9:
    mshape = v.shape + ((1,) * kcast.size(v.shape),)
  mask = [pattern[i % len(pattern)] for i in range(kcast.size(mshape))]
  toks = ['p' if m else '_' for m in mask]
  m = kpub.mk(d, schema, mshape, toks)

  def model():
    if grow:
      if len(mshape) > len(v.shape):
        raise Bad('rank')
      full = kcast.broadcast(mask, mshape, v.shape)
      return kjag.select(v.items, v.shape, full, v.shape)
    return kjag.select(v.items, v.shape, mask, mshape)

  want = outcome(model)
  what = f'{v} selected by {m} (expanded: {grow})'
  agree(d, ('op', 'kd.slices.internal_select_by_slice', v.reg, m.reg,
            flag(d, grow)), v, want, what)
  # And back to where they were.
  if want is not None and mshape == v.shape:
    s = kpub.mk(d, v.schema, want[1], want[0])
    back = [t if p else '_' for t, p in zip(v.items, mask)]
    agree(d, ('op', 'kd.slices.inverse_select', s.reg, m.reg), v,
          (back, v.shape), f'inverse of {what}')
    if want[1] != v.shape:
      expect(d.fails('op', 'kd.slices.inverse_select', v.reg, m.reg),
             f'inverse select of {v} by {m}')
  # A filter of other values.
  if schema == 'sOBJECT' and want is not None and present(
      kcast.broadcast(toks, mshape, v.shape) if grow else toks):
    bad = kpub.mk(d, 'sOBJECT', mshape, ['b1' if t == 'p' else t
                                         for t in toks])
    expect(d.fails('op', 'kd.slices.internal_select_by_slice', v.reg, bad.reg,
                   flag(d, grow)), f'select by {bad}')
  kpub.check(d, v.reg, v.schema, v.shape, v.items, 'the slice')
  vp.label('rejected' if want is None else 'selected')
  return want is not None and present(want[0]) > 1


@check.clause(slices(4), n=500, thorough=12000, budget_s=10)
def reverse_collapse(case):
  d = kd.driver()
  v = make(d, case)
  gs = kcast.groups(v.items, v.shape[-1])
  r = [t for g in gs for t in reversed(g)]
  agree(d, ('op', 'kd.slices.reverse', v.reg), v, (r, v.shape), f'reverse {v}')
  again = d.call('op', 'kd.slices.reverse', d.call('op', 'kd.slices.reverse',
                                                   v.reg))
  kpub.check(d, again, v.schema, v.shape, v.items, 'reversed twice')
  out, clear = [], True
  for g in gs:
    p = [t for t in g if t != '_']
    clear = clear and len({key(t) for t in p}) == len(set(p))
    out.append(p[0] if len(set(p)) == 1 else '_')
  if clear:
    agree(d, ('op', 'kd.slices._collapse', v.reg), v, (out, v.shape[:-1]),
          f'collapse {v}')
  expect_eq(kpub.show(d, d.call('op', 'kd.slices.is_empty', v.reg)).items,
            ['_' if present(v.items) else 'p'], f'is_empty {v}')
  return present(r) > 1


# --- grouping and order -----------------------------------------------------


def sort_error(items):
  """Whether the items cannot be sorted; None if that is not specified."""
  kinds = {t[0] for t in items if t != '_'}
  if not kinds:
    return None
  return len(kinds) > 1 or not kinds <= set(SORTABLE)


@check.clause(st.tuples(slices(3), st.booleans()), n=900, thorough=20000,
              budget_s=15)
def unique(case):
  spec, sort = case
  d = kd.driver()
  v = make(d, spec)
  out, sizes = [], []
  for g in kcast.groups(v.items, v.shape[-1]):
    seen = {}
    for t in g:
      if t != '_':
        seen.setdefault(key(t), t)
    g = list(seen.values())
    if sort and not sort_error(v.items):
      g.sort(key=order)
    sizes.append(len(g))
    out += g
  call = ('op', 'kd.slices.unique', v.reg, flag(d, sort))
  if sort and sort_error(v.items):
    expect(d.fails(*call), f'sorted unique of {v}')
    return False
  if sort and sort_error(v.items) is None and d.fails(*call):
    return False
  agree(d, call, v, (out, v.shape[:-1] + (tuple(sizes),)),
        f'unique of {v} sorted {sort}')
  vp.label('sorted' if sort else 'in order')
  return present(out) > 1


@check.clause(st.tuples(st.lists(typed(), min_size=1, max_size=3),
                        st.one_of(kpub.shape_specs(3, 1, first=(5, 9, 3, 1)),
                                  kpub.shape_specs(3, 2, first=(3, 2, 1))),
                        st.booleans(), st.integers(0, 9)),
              n=1000, thorough=25000, budget_s=20)
def group_by(case):
  specs, sh, sort, odd = case
  d = kd.driver()
  shape = kpub.shape_of(sh)
  ids = kd.Alloc(d, 'e', 3)
  keys = [make(d, s, shape, ids) for s in specs]
  if odd == 9:
    keys.append(kpub.mk(d, 'sINT32', (), ['i1']))
  call = ('op', 'kd.slices._group_by_indices', flag(d, sort),
          *(k.reg for k in keys))
  what = f'group by {keys} sorted {sort}'
  errors = [sort_error(k.items) for k in keys]
  if odd == 9 or sort and any(errors):
    expect(d.fails(*call), what)
    return False
  if sort and None in errors and d.fails(*call):
    return False
  out, groups, sizes = [], [], []
  pos = 0
  for n in shape[-1]:
    found = {}
    for i in range(n):
      row = [k.items[pos + i] for k in keys]
      if '_' not in row:
        g = found.setdefault(tuple(map(key, row)), (row, []))
        g[1].append(i)
    pos += n
    rows = list(found.values())
    if sort:
      rows.sort(key=lambda g: [order(t) for t in g[0]])
    groups.append(len(rows))
    for _, idx in rows:
      sizes.append(len(idx))
      out += [f'l{i}' for i in idx]
  got = d.call(*call)
  new = shape[:-1] + (tuple(groups), tuple(sizes))
  kpub.check(d, got, 'sINT64', new, out, what)
  # Taking the items by these indices.
  first = keys[0]
  starts = []
  for p, g in zip(kjag.offsets(shape[-1]), groups):
    starts += [p] * g
  taken = []
  it = iter(out)
  for s, n in zip(starts, sizes):
    taken += [first.items[s + int(next(it)[1:])] for _ in range(n)]
  agree(d, ('op', 'kd.slices.take', first.reg, got), first, (taken, new),
        f'taken by {what}')
  vp.label('sorted' if sort else 'in order')
  return len(out) > 1


@check.clause(st.tuples(slices(3, ('sINT32', 'sINT64', 'sFLOAT32', 'sSTRING',
                                   'sBYTES', 'sBOOLEAN')),
                        st.booleans(), st.lists(st.integers(0, 2), min_size=1,
                                                max_size=4)),
              n=700, thorough=15000, budget_s=15)
def ranks(case):
  spec, down, ties = case
  d = kd.driver()
  v = make(d, spec)
  if sort_error(v.items) is not False:
    return False
  tie = [ties[i % len(ties)] for i in range(len(v.items))]
  t = kpub.mk(d, 'sINT32', v.shape, [f'i{x}' for x in tie])
  ordinal, dense, inverse = [], [], []
  pos = 0
  for n in v.shape[-1]:
    at = [i for i in range(pos, pos + n) if v.items[i] != '_']
    s = sorted(at, key=lambda i: (tie[i], i))
    s.sort(key=lambda i: order(v.items[i]), reverse=down)
    if down:  # Ties keep their order.
      s = sorted(sorted(at, key=lambda i: (tie[i], i)),
                 key=lambda i: order(v.items[i]), reverse=True)
    rank = {i: r for r, i in enumerate(s)}
    distinct = sorted({order(v.items[i]) for i in at}, reverse=down)
    ordinal += [f'l{rank[i]}' if i in rank else '_'
                for i in range(pos, pos + n)]
    dense += [f'l{distinct.index(order(v.items[i]))}' if i in rank else '_'
              for i in range(pos, pos + n)]
    inv = ['_'] * n
    for r, i in enumerate(s):
      inv[r] = f'l{i - pos}'
    inverse += inv
    pos += n
  o = d.call('op', 'kd.slices._ordinal_rank', v.reg, t.reg, flag(d, down))
  kpub.check(d, o, 'sINT64', v.shape, ordinal, f'rank of {v} descending {down}')
  kpub.check(d, d.call('op', 'kd.slices._dense_rank', v.reg, flag(d, down)),
             'sINT64', v.shape, dense, f'dense rank of {v} descending {down}')
  kpub.check(d, d.call('op', 'kd.slices._inverse_mapping', o), 'sINT64',
             v.shape, inverse, f'inverse of the ranks of {v}')
  return present(v.items) > 1


# --- lookup -----------------------------------------------------------------


@check.clause(st.tuples(
    st.sampled_from(('sINT32', 'sINT64', 'sSTRING', 'sBYTES', 'sBOOLEAN',
                     'sITEMID', 'sOBJECT')),
    st.lists(st.integers(0, 9), min_size=1, max_size=6),
    st.lists(st.integers(0, 9), min_size=1, max_size=6), typed(),
    kpub.shape_specs(3, 1, first=(2, 3, 1, 4)),
    kpub.shape_specs(2, 1, first=(2, 3, 1, 4)), st.booleans(),
    st.integers(0, 6)),
              n=1000, thorough=25000, budget_s=15)
def translate(case):
  schema, kf, kt, vals, sh, tosh, dup, odd = case
  d = kd.driver()
  ids = kd.Alloc(d, 'e', 3)
  pool = (POOL['sINT32'][:2] + POOL['sSTRING'][:3] + ('l9000000000',)
          if schema == 'sOBJECT' else POOL[schema])
  pool = tuple(ids[int(t[1])] if t[0] == 'o' else t for t in pool) + ('_',)
  shape = kpub.shape_of(sh)
  n = kcast.size(shape)
  keys = []
  pos = 0
  for size in shape[-1]:  # Distinct keys in each group.
    seen = set()
    for i in range(size):
      k = pool[kf[(pos + i) % len(kf)] % len(pool)]
      if k in seen and not dup:
        k = '_'
      seen.add(k)
      keys.append(k)
    pos += size
  toshape = shape[:-1] + kpub.shape_of(tosh)[1:2] if odd != 6 else ((3,),)
  toshape = shape[:-1]
  if odd < 4:
    toshape = toshape + (tuple((odd + i) % 3 for i in
                               range(kcast.size(toshape))),)
  elif odd == 6:
    toshape = ((3,),)
  tokeys = [pool[kt[i % len(kt)] % len(pool)]
            for i in range(kcast.size(toshape))]
  vshape = kpub.cut(shape, len(shape) if odd % 2 else odd)
  v = make(d, vals, vshape, ids)
  f = kpub.mk(d, schema, shape, keys)
  t = kpub.mk(d, schema, toshape, tokeys)
  values = kcast.broadcast(v.items, vshape, shape)
  call = ('op', 'kd.slices.translate', t.reg, f.reg, v.reg)
  what = f'translate {t} from {f} to {v}'
  clash = any(len({key(k) for k in g if k != '_'}) < present(g)
              for g in kcast.groups(keys, shape[-1]))
  if clash or shape[:-1] != toshape[:len(shape) - 1]:
    expect(d.fails(*call), what)
    vp.label('rejected')
    return False
  dicts, pos = [], 0
  for size in shape[-1]:
    dicts.append({key(keys[i]): values[i] for i in range(pos, pos + size)
                  if keys[i] != '_'})
    pos += size
  per = kcast.broadcast(dicts, shape[:-1], toshape)
  want = ['_' if k == '_' else m.get(key(k), '_')
          for k, m in zip(tokeys, per)]
  agree(d, call, v, (want, toshape), what)
  vp.label(f'{schema}')
  return n > 1 and present(want) > 0


# --- joining ----------------------------------------------------------------


@check.clause(st.tuples(st.lists(typed(), min_size=1, max_size=4),
                        kpub.shape_specs(3, 0, first=(2, 3, 1, 0)),
                        st.lists(st.integers(0, 2), min_size=1, max_size=5),
                        st.integers(-1, 4), st.booleans(),
                        st.integers(0, 12)),
              n=1500, thorough=40000, budget_s=20)
def join(case):
  specs, sh, pattern, ndim, stacked, odd = case
  d = kd.driver()
  ids = kd.Alloc(d, 'e', 3)
  base = kpub.shape_of(sh)
  keep = max(0, len(base) - max(ndim, 0))
  parts = []
  for j, spec in enumerate(specs):
    shape = base[:keep]
    for r in range(len(base) - keep):  # The joined dimensions vary.
      n = kcast.size(shape)
      if not shape:
        shape = ((pattern[j % len(pattern)] + 1,),)
      else:
        shape += (tuple(pattern[(i + j + r) % len(pattern)]
                        for i in range(n)),)
    if odd == 12 and j == 1:
      shape = shape + ((1,) * kcast.size(shape),)
    if odd == 11 and j == 1 and keep and shape[0][0] < 9:
      shape = ((shape[0][0] + 1,),) + ((1,) * (shape[0][0] + 1),) * (
          len(shape) - 1)
    parts.append(make(d, spec, shape, ids))
  call = ('op', 'kd.slices._concat_or_stack', flag(d, stacked),
          kpub.mk(d, 'sINT64', (), [f'l{ndim}']).reg, *(p.reg for p in parts))
  what = f'{"stack" if stacked else "concat"} {parts} along {ndim}'

  def model():
    if not stacked and not parts[0].shape:
      raise Bad('rank')
    schema = kcast.common([p.schema for p in parts])
    moved = [([kcast.convert(t, schema) for t in p.items], p.shape)
             for p in parts]
    return (kjag.stack if stacked else kjag.concat)(moved, ndim) + (schema,)

  want = outcome(model)
  if want is None:
    expect(d.fails(*call), what)
    vp.label('rejected')
    return False
  kpub.check(d, d.call(*call), want[2], want[1], want[0], what)
  vp.label('stacked' if stacked else 'joined')
  return len(parts) > 1 and present(want[0]) > 1


if __name__ == '__main__':
  check.main()
