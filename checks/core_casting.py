"""C23: the schema lattice and casts between schemas."""
import re

import kcast
import kd
import kpub
import ktree
import vp
from kcast import Bad
from vp import expect, expect_eq, st

check = vp.Check(
    'C23',
    'Generated sets of schemas (common schema, in every order and through'
    ' every entry point), slices of every primitive schema and of mixed'
    ' objects cast to every schema by explicit, implicit, narrowing and named'
    ' casts, and nested entities cast to generated entity schemas; results'
    ' and rejections are compared with a table of the documented rules.'
    ' Non-trivial: at least two different schemas take part and at least one'
    ' cast succeeds with a value.',
    ['arolla is replaced by the stand-in in shims/kcore.'])


@check.setup
def _setup():
  kd.build('casting', ['kcore_public.cc', 'kcore_ops.cc'],
           groups=('internal', 'public', 'operators'))


NUMS = set(kcast.NUM)
# Schemas a slice may have to be cast to a schema.
FROM = {t: NUMS | {'sNONE', 'sBOOLEAN', 'sSTRING', 'sBYTES', 'sOBJECT'}
        for t in kcast.NUM}
FROM |= {
    'sSTRING': NUMS | {'sNONE', 'sSTRING', 'sBYTES', 'sMASK', 'sBOOLEAN',
                       'sOBJECT'},
    'sBYTES': {'sNONE', 'sBYTES', 'sOBJECT'},
    'sMASK': {'sNONE', 'sMASK', 'sBOOLEAN', 'sOBJECT'},
    'sBOOLEAN': NUMS | {'sNONE', 'sBOOLEAN', 'sOBJECT'},
    'sEXPR': {'sNONE', 'sEXPR', 'sOBJECT'},
    'sITEMID': {'sNONE', 'sITEMID', 'sOBJECT', 'sSCHEMA'},
    'sSCHEMA': {'sNONE', 'sSCHEMA', 'sOBJECT'},
    'sNONE': set(kcast.DTYPES),
    'sOBJECT': set(kcast.DTYPES),
}
# Kinds of the items that convert.
TAKES = {t: 'ilfdbty' for t in kcast.NUM}
TAKES |= {'sSTRING': 'ilfdbpty', 'sBYTES': 'y', 'sMASK': 'pb',
          'sBOOLEAN': 'ilfdb', 'sEXPR': 'e', 'sITEMID': 'o', 'sSCHEMA': 'sx',
          'sNONE': '', 'sOBJECT': 'ilfdbptyeso'}
WORDS = tuple(k + kd.pct(w) for k in 'ty'
              for w in ('', 'a', '12', '-3', '0', '1.5', 'x1', '1 ', '+4'))


def parse(text):
  """The number a text stands for, None if it is not one."""
  if re.fullmatch(r'[+-]?\d+', text, re.A):
    return int(text)
  if re.fullmatch(r'[+-]?\d+\.\d+', text, re.A):
    return float(text)
  return None


def cast_item(t, to):
  """An item as the given schema; None stands for any text."""
  if t == '_':
    return t
  k = 's' if t[0] == 'o' and kcast.is_schema_id(t) and to == 'sSCHEMA' else t[0]
  if k not in TAKES[to]:
    raise Bad(t)
  if kcast.OF.get(t[0]) == to or to in ('sOBJECT', 'sITEMID', 'sSCHEMA'):
    return t
  if to in NUMS:
    if k in 'ty':
      v = parse(kd.unpct_text(t[1:]) if k == 't'
                else kd.unpct(t[1:]).decode('latin1'))
      if v is None or (to in ('sINT32', 'sINT64') and isinstance(v, float)):
        raise Bad(t)
      return number(v, to)
    return number(int(t == 'b1') if k == 'b' else kcast.num(t), to)
  if to == 'sBOOLEAN':
    return 'b1' if kcast.num(t) != 0 else 'b0'
  if to == 'sMASK':
    return {'b0': '_', 'b1': 'p'}[t]
  if to == 'sSTRING':
    if k in 'il':
      return 't' + kd.pct(t[1:])
    if k == 'b':
      return {'b0': 'tfalse', 'b1': 'ttrue'}[t]
    if k == 'p':
      return 'tpresent'
    return None
  raise AssertionError((t, to))


def number(v, to):
  if isinstance(v, float):
    return kcast.convert(kcast.f64(v), to)
  return kcast.convert('l%d' % v, to) if to != 'sINT64' else 'l%d' % v


def model_cast(schema, items, to):
  """The items of a slice as the given schema."""
  if schema == to:
    return items
  if to not in ('sNONE', 'sOBJECT') and schema not in FROM[to]:
    raise Bad('schema')
  return [cast_item(t, to) for t in items]


# --- common schemas ---------------------------------------------------------

EXTRA = 4


def schema_sets():
  one = st.one_of(st.sampled_from(kcast.DTYPES),
                  st.sampled_from(kcast.DTYPES[:5]),
                  st.sampled_from(tuple(range(EXTRA))))
  return st.tuples(st.lists(one, min_size=1, max_size=6),
                   st.lists(st.integers(0, 10**6), min_size=4, max_size=4),
                   kpub.shape_specs(2))


def entities(d, bag):
  """Four entity schemas; the first two have the same attributes."""
  v = kpub.mk(d, 'sINT32', (), ['i1']).reg
  x = [d.call('f.schema', bag, 1, 'a', kpub.mk(d, 'sSCHEMA', (), ['sINT32']).reg)
       for _ in range(2)]
  del v
  x += [d.call('f.uuschema', bag, kd.pct('seed'), 1, 'a',
               kpub.mk(d, 'sSCHEMA', (), ['sINT32']).reg),
        d.call('f.listschema', bag,
               kpub.mk(d, 'sSCHEMA', (), ['sINT32']).reg)]
  return [kpub.show(d, s).items[0] for s in x]


def perm(xs, seed):
  xs = list(xs)
  out = []
  while xs:
    out.append(xs.pop(seed % len(xs)))
    seed //= 7
    seed += 3
  return out


@check.clause(schema_sets(), n=600, thorough=15000, budget_s=20)
def lattice(case):
  names, seeds, spec = case
  d = kd.driver()
  bag = d.call('b.new')
  ids = entities(d, bag)
  schemas = [ids[s] if isinstance(s, int) else s for s in names]
  try:
    want = kcast.common(schemas)
  except Bad:
    want = None
  shape = kpub.shape_of(spec)
  for seed in seeds:
    order = perm(schemas, seed)
    # Slices with these schemas.
    regs = [kpub.mk(d, s, (), ['_'], bag).reg for s in order]
    if want is None:
      expect(d.fails('s.alignschemas', *regs), f'{order} have no common schema')
    else:
      for r in d.call('s.alignschemas', *regs).split()[-len(regs):]:
        kpub.check(d, r, want, (), ['_'], f'aligned {order}')
    # One by one.
    acc, ok = order[0], True
    for s in order[1:]:
      a, b = (kpub.mk(d, x, (), ['_'], bag).reg for x in (acc, s))
      try:
        both = kcast.common([acc, s])
      except Bad:
        expect(d.fails('s.alignschemas', a, b), f'{acc} {s}')
        ok = False
        break
      out = d.call('s.alignschemas', a, b).split()[-2:]
      kpub.check(d, out[0], both, (), ['_'], f'{acc} and {s}')
      acc = both
    if ok:
      expect_eq(acc, want, f'the common schema of {order} pair by pair')
    elif want is not None:
      expect(False, f'{order} joined pair by pair')
    # The schemas as data.
    n = kcast.size(shape)
    data = [order[i % len(order)] if i % 5 != 4 else '_' for i in range(n)]
    s = kpub.mk(d, 'sSCHEMA', shape, data, bag).reg
    if shape:
      groups = kcast.groups(data, shape[-1])
      try:
        exp = [kcast.common(g) or '_' for g in groups]
      except Bad:
        exp = None
      if exp is None:
        expect(d.fails('op', 'kd.schema._agg_common_schema', s),
               f'aggregated {data}')
      else:
        kpub.check(d, d.call('op', 'kd.schema._agg_common_schema', s),
                   'sSCHEMA', shape[:-1], exp, f'aggregated {data}')
  vp.label('no common schema' if want is None else want if want[0] == 's'
           else 'entity')
  return len(set(schemas)) > 1


# --- casts of primitives ----------------------------------------------------


def values():
  pool = {k: v for k, v in kpub.BY_TYPE.items() if k != 'sSCHEMA'}
  pool['sSTRING'] += tuple(w for w in WORDS if w[0] == 't')
  pool['sBYTES'] += tuple(w for w in WORDS if w[0] == 'y')
  pool['sSCHEMA'] = ('sINT32', 'sNONE', 'sOBJECT')
  pool['sITEMID'] = ('o0', 'o1')
  pool['sNONE'] = ('_',)

  def of(t):
    return st.tuples(
        st.sampled_from((t, t, 'sOBJECT' if t != 'sITEMID' else t)),
        st.lists(st.sampled_from(pool[t] + ('_',)), min_size=1, max_size=4))

  mix = st.lists(st.sampled_from(tuple(pool)), min_size=2, max_size=3).flatmap(
      lambda ts: st.tuples(
          st.just('sOBJECT'),
          st.lists(st.sampled_from(tuple(v for t in ts for v in pool[t])),
                   min_size=1, max_size=5)))
  one = st.sampled_from(tuple(pool)).flatmap(of)
  return st.one_of(one, st.sampled_from(tuple(pool)).flatmap(of), mix)


def make(d, schema, pattern, shape):
  """A slice; o0, o1 become ids."""
  a = kd.Alloc(d, 'e', 2)
  items = [a[int(t[1])] if t in ('o0', 'o1') else t
           for t in kpub.fill(pattern, kcast.size(shape))]
  return kpub.mk(d, schema, shape, items)


ENTRY = ('explicit', 'named', 'op', 'deep')


def cast(d, how, reg, to):
  if how == 'explicit':
    return d.call('s.explicit', reg, to)
  if how == 'named':
    return d.call('s.to', to[1:], reg)
  args = [reg, kpub.mk(d, 'sSCHEMA', (), [to]).reg]
  if how == 'op':
    return d.call('op', 'kd.schema.cast_to', *args)
  flag = kpub.mk(d, 'sBOOLEAN', (), ['b0']).reg
  return d.call('op', 'kd.schema._deep_cast_to', *args, flag, flag)


@check.clause(st.tuples(values(), kpub.shape_specs(3, first=(1, 2, 3, 5, 0, 9)),
                        st.lists(st.sampled_from(kcast.DTYPES), min_size=3,
                                 max_size=8, unique=True)),
              n=1500, thorough=40000, budget_s=25)
def primitives(case):
  (schema, pattern), spec, targets = case
  d = kd.driver()
  v = make(d, schema, pattern, kpub.shape_of(spec))
  hit = False
  for to in targets:
    what = f'{v} as {to}'
    # Values whose schema is one that data can have.
    try:
      want = model_cast(v.schema, v.items, to)
      if to == 'sOBJECT' and any(kcast.is_id(t) for t in v.items):
        want = None  # See `objects` of C22.
    except Bad:
      want = 'bad'
    for how in ENTRY:
      if to == 'sOBJECT' and how == 'named' and schema == 'sOBJECT':
        continue
      if want is None:
        continue
      if want == 'bad':
        try:
          got = kpub.show(d, cast(d, how, v.reg, to))
        except kd.KdError:
          continue
        raise vp.Violation(f'{how}: {what} gave {got}')
      got = kpub.show(d, cast(d, how, v.reg, to))
      expect_eq((got.schema, kcast.shape_tok(got.shape)),
                (to, kcast.shape_tok(v.shape)), f'{how}: {what}')
      same = [g if w is None and g[0] == 't' else w
              for g, w in zip(got.items, want)]
      expect_eq(got.items, same, f'{how}: {what}')
      hit = hit or to != schema and any(t != '_' for t in got.items)
      # And item by item.
      if how == 'explicit' and v.items:
        i = len(v.items) // 2
        one = kpub.mk(d, schema, (), [v.items[i]]).reg
        kpub.check(d, cast(d, how, one, to), to, (), [got.items[i]],
                   f'{what}, item {i}')
    # What can be cast at all.
    try:
      model_cast(v.schema, [], to)
      castable = True
    except Bad:
      castable = False
    if to != 'sOBJECT':
      expect_eq(d.call('s.castable', v.schema, to), '1' if castable else '0',
                f'castable {v.schema} {to}')
    # Implicit: only up the lattice, and then every value converts.
    if kcast.implicit_ok(schema, to):
      imp = kpub.show(d, d.call('s.implicit', v.reg, to))
      expect_eq(imp.schema, to, f'implicit {what}')
      expect_eq(imp.items, [kcast.convert(t, to) for t in v.items],
                f'implicit {what}')
    else:
      expect(d.fails('s.implicit', v.reg, to), f'implicit {what}')
    # Narrowing: by the type the values have.
    if any(t[0] in 'so' for t in v.items):
      continue
    try:
      nar = kcast.cast_narrow(schema, v.items, to, None) if schema != to else v.items
    except Bad:
      expect(d.fails('s.narrow', v.reg, to), f'narrow {what}')
      continue
    kpub.check(d, d.call('s.narrow', v.reg, to), to, v.shape, nar,
               f'narrow {what}')
  return hit


@check.clause(st.tuples(st.lists(st.one_of(
    st.text(max_size=6).map(lambda s: s.encode('utf-8', 'surrogatepass')),
    st.binary(max_size=6)), min_size=1, max_size=5),
    st.sampled_from(('sSTRING', 'sBYTES', 'sOBJECT')),
    st.sampled_from(('strict', 'ignore', 'replace')), st.booleans()),
              n=500, thorough=12000, budget_s=12)
def text(case):
  raw, schema, errors, gap = case
  d = kd.driver()

  def valid(b):
    try:
      b.decode()
      return True
    except UnicodeDecodeError:
      return False

  kinds = ['y' if schema == 'sBYTES' or not valid(b) or
           (schema == 'sOBJECT' and i % 2) else 't' for i, b in enumerate(raw)]
  if schema == 'sSTRING':
    raw = [b for b in raw if valid(b)]
    kinds = ['t'] * len(raw)
  items = [k + kd.pct(b) for k, b in zip(kinds, raw)] + ['_'] * gap
  v = kpub.mk(d, schema, ((len(items),),), items)
  enc = ['y' + kd.pct(b) for b in raw] + ['_'] * gap
  e = d.call('s.to', 'ENCODE', v.reg)
  kpub.check(d, e, 'sBYTES', v.shape, enc, f'encode {v}')
  if all(valid(b) for b in raw):
    back = d.call('s.to', 'DECODE', e, errors)
    kpub.check(d, back, 'sSTRING', v.shape,
               ['t' + kd.pct(b) for b in raw] + ['_'] * gap,
               f'decode of encode {v}')
  elif errors == 'strict':
    expect(d.fails('s.to', 'DECODE', e, errors), f'decode invalid {v}')
    expect(d.fails('s.to', 'DECODE', v.reg, errors), f'decode invalid {v}')
  # Text is kept.
  if all(k == 't' for k in kinds):
    kpub.check(d, d.call('s.to', 'DECODE', v.reg, errors), 'sSTRING', v.shape,
               items, f'decode text {v}')
  vp.label('all valid' if all(map(valid, raw)) else errors)
  return bool(raw) and any(raw)


@check.clause(st.tuples(values(), kpub.shape_specs(2)), n=700, thorough=15000,
              budget_s=12)
def round_trip(case):
  """Numbers and texts survive a wider type and back."""
  (schema, pattern), spec = case
  d = kd.driver()
  v = make(d, schema, pattern, kpub.shape_of(spec))
  wider = {'sINT32': ('sINT64', 'sFLOAT64', 'sSTRING'), 'sINT64': ('sSTRING',),
           'sFLOAT32': ('sFLOAT64', 'sSTRING'), 'sFLOAT64': ('sSTRING',),
           'sBOOLEAN': ('sINT32', 'sFLOAT32'), 'sMASK': ()}.get(schema, ())
  for to in wider + ('sOBJECT',):
    if schema in ('sITEMID', 'sOBJECT') or (
        to == 'sOBJECT' and schema in ('sSCHEMA', 'sNONE')):
      continue
    there = d.call('s.explicit', v.reg, to)
    kpub.check(d, d.call('s.explicit', there, schema), schema, v.shape, v.items,
               f'{v} through {to}')
  # A cast never changes the slice it is given.
  kpub.check(d, v.reg, v.schema, v.shape, v.items, 'the slice')
  return len(set(v.items) - {'_'}) > 1


# --- casts of entities ------------------------------------------------------

def edits():
  """How the type to cast to differs."""
  return st.lists(st.tuples(st.integers(0, 4), st.sampled_from(
      ('near', 'near ', 'near  ', 'leaf', 'drop', 'add', 'list', 'same')),
      st.sampled_from(ktree.LEAF)), max_size=3)


def edit(t, where, how, leaf, n=None):
  """The type with the where-th place changed."""
  n = n if n is not None else [where]
  n[0] -= 1
  here = n[0] < 0 and n[0] > -2
  if isinstance(t, str):
    if here:
      n[0] = -10
      if how.strip() == 'near':
        to = [x for x in ktree.LEAF if t in FROM[x]]
        return to[(ktree.LEAF.index(leaf) + len(how)) % len(to)]
      return {'leaf': leaf, 'list': ('l', leaf)}.get(how, t)
    return t
  if t[0] == 'e':
    if here and how in ('drop', 'add'):
      n[0] = -10
      fields = t[1][1:] if how == 'drop' else t[1] + (('z', leaf),)
      return ('e', fields) if fields else t
    if here:
      n[0] += 1
    return ('e', tuple((k, edit(v, 0, how, leaf, n)) for k, v in t[1]))
  if here:
    n[0] += 1
  if t[0] == 'l':
    return ('l', edit(t[1], 0, how, leaf, n))
  k = edit(t[1], 0, how, leaf, n)
  return ('d', k if k in ('sINT32', 'sINT64', 'sSTRING', 'sBYTES') else t[1],
          edit(t[2], 0, how, leaf, n))


def compatible(a, b, rm, new):
  if isinstance(a, str) or isinstance(b, str):
    if a == b:
      return True
    if isinstance(a, str) and isinstance(b, str):
      return a in FROM[b]
    return False
  if a[0] != b[0]:
    return None  # E.g. a list as an entity without attributes.
  if a[0] == 'l':
    return compatible(a[1], b[1], rm, new)
  if a[0] == 'd':
    return both(compatible(a[1], b[1], rm, new),
                compatible(a[2], b[2], rm, new))
  x, y = dict(a[1]), dict(b[1])
  if set(x) - set(y) and not rm or set(y) - set(x) and not new:
    return False
  r = True
  for k in x:
    if k in y:
      r = both(r, compatible(x[k], y[k], rm, new))
  return r


def both(a, b):
  if a is False or b is False:
    return False
  return None if a is None or b is None else True


def cast_value(v, a, b):
  """A value of type a as type b."""
  if v == '_':
    return v
  if isinstance(b, str):
    return cast_item(v, b) if a != b else v
  if b[0] == 'l':
    return ('l', [cast_value(x, a[1], b[1]) for x in v[1]])
  if b[0] == 'd':
    return ('d', {(cast_item(k, b[1]) if a[1] != b[1] else k):
                  y for k, x in v[1].items()
                  if (y := cast_value(x, a[2], b[2])) != '_'})
  x = dict(a[1])
  return ('e', {k: cast_value(v[1][k], x[k], t) if k in x else '_'
                for k, t in b[1]})


@check.clause(st.tuples(ktree.types(2).filter(lambda t: not isinstance(t, str)),
                        edits(), st.sampled_from((1, 2, 3, 4, 0)), st.integers(0, 20),
                        st.booleans(), st.booleans(), st.booleans()),
              n=1500, thorough=30000, budget_s=30)
def deep(case):
  a, changes, n, seed, rm, new, obj = case
  b = a
  for where, how, leaf in changes:
    b = edit(b, where, how, leaf)
  d = kd.driver()
  bag = d.call('b.new')
  sa, sb = ktree.build_schema(d, bag, a), ktree.build_schema(d, bag, b)
  src, vals = ktree.build_data(d, bag, a, sa, n, seed)
  before = ktree.read(d, src, a, n)
  expect_eq(before, vals, 'the data as built')
  ok = compatible(a, b, rm, new)
  want = None
  if ok:
    try:
      want = [cast_value(v, a, b) for v in vals]
    except Bad:
      ok = False
  flags = [kpub.mk(d, 'sBOOLEAN', (), ['b1' if x else 'b0']).reg
           for x in (rm, new)]
  target = kpub.show(d, sb).items[0]
  call = [('op', 'kd.schema._deep_cast_to', src, sb, *flags),
          ('s.toentity', src, target, int(rm), int(new))]
  if not rm and not new:
    call.append(('op', 'kd.schema.cast_to', src, sb))
  for c in call:
    what = f'{c[:2]}: {a} as {b} (removing {rm}, new {new})'
    if ok is None:
      continue
    if kpub.show(d, sa).items[0] == target:  # Deterministic schemas.
      ok, want = True, vals
    if not ok:
      try:
        got = d.call(*c)
      except kd.KdError:
        continue
      raise vp.Violation(f'{what} accepted: {ktree.read(d, got, b, n)}')
    got = d.call(*c)
    expect_eq(kpub.show(d, got).schema, target, f'{what}: schema')
    read = ktree.read(d, got, b, n)
    expect_eq([matched(g, w) for g, w in zip(read, want)], want, what)
  expect_eq(ktree.read(d, src, a, n), vals, 'the source after the cast')
  vp.label('compatible' if ok else 'rejected' if ok is False else 'undecided')
  return bool(ok) and a != b and n > 0


def matched(got, want):
  """The value, with any text where the model does not decide it."""
  if want is None and isinstance(got, str) and got[0] == 't':
    return None
  if isinstance(got, str) or isinstance(want, str) or got[0] != want[0]:
    return got
  if got[0] == 'l':
    if len(got[1]) != len(want[1]):
      return got
    return ('l', [matched(g, w) for g, w in zip(got[1], want[1])])
  return (got[0], {k: matched(g, want[1][k]) if k in want[1] else g
                   for k, g in got[1].items()})


if __name__ == '__main__':
  check.main()
