"""C26: pointwise arithmetic, comparison, masking; aggregation over groups."""
import math
import struct

import kcast
import kd
import kpub
import numpy as np
import vp
from kcast import Bad
from vp import expect, expect_eq, st

check = vp.Check(
    'C26',
    'Pairs of slices of every type (typed, boxed in OBJECT, mixed, missing,'
    ' NONE; scalars and jagged shapes of different ranks, also incompatible'
    ' ones) through pointwise and aggregating operators; compared with the'
    ' operation on the items of the nested lists. Non-trivial: the operation is'
    ' accepted and gives two or more present items.',
    ['arolla is replaced by the stand-in in shims/kcore, which also provides'
     ' the arithmetic on single numbers.'])


@check.setup
def _setup():
  kd.build('elementwise', ['kcore_public.cc', 'kcore_ops.cc'],
           groups=('internal', 'public', 'operators'))


def f(x):
  return kcast.f32(x)


def g(x):
  return kcast.f64(x)


POOL = {
    'sINT32': ('i0', 'i1', 'i2', 'i-7', 'i2147483647', 'i-2147483648',
               'i16777217', 'i12'),
    'sINT64': ('l0', 'l1', 'l-3', 'l9000000000', 'l9223372036854775807',
               'l-9007199254740993', 'l16777217', 'l12'),
    'sFLOAT32': (f(0.0), f(-0.0), f(1.0), f(-2.5), f(3.5), f(math.inf),
                 f(math.nan), f(16777216.0), f(12.0)),
    'sFLOAT64': (g(0.0), g(1.0), g(-2.5), g(0.1), g(math.inf), g(math.nan),
                 g(9e9), g(12.0)),
    'sBOOLEAN': ('b0', 'b1'),
    'sMASK': ('p',),
    'sSTRING': ('t', 'ta', 'tab', 'tb', 't%c3%a9', 'ta%00'),
    'sBYTES': ('y', 'ya', 'y%00%ff', 'yab'),
    'sEXPR': ('eL1', 'eL2'),
    'sSCHEMA': ('sINT32', 'sOBJECT'),
    'sITEMID': ('o0', 'o1', 'o2'),
}
NUMERIC = kcast.NUM
PAIRS = NUMERIC + NUMERIC + ('sBOOLEAN', 'sMASK', 'sSTRING', 'sBYTES',
                             'sSTRING', 'sBYTES', 'sEXPR', 'sSCHEMA',
                             'sITEMID')


def of(t):
  return st.tuples(
      st.sampled_from((t, t, t, 'sOBJECT' if t not in ('sITEMID', 'sSCHEMA')
                       else t)),
      st.lists(st.sampled_from(POOL[t] + ('_',)), min_size=1, max_size=7))


def odd_values():
  return st.one_of(
      st.tuples(st.just('sOBJECT'), st.lists(st.sampled_from(
          ('i1', 'l2', f(1.0), 'ta', 'p', '_', 'b1')), min_size=2,
          max_size=5)),
      st.tuples(st.sampled_from(('sNONE', 'sOBJECT', 'sINT32', 'sSTRING',
                                 'sMASK', 'sFLOAT64')), st.just(['_'])))


def pairs():
  """Two kinds of values that often go together."""
  same = st.sampled_from(PAIRS).flatmap(lambda t: st.tuples(of(t), of(t)))
  nums = st.tuples(st.sampled_from(NUMERIC).flatmap(of),
                   st.sampled_from(NUMERIC).flatmap(of))
  any_ = st.tuples(st.sampled_from(PAIRS).flatmap(of),
                   st.sampled_from(PAIRS).flatmap(of))
  return st.one_of(same, st.tuples(st.sampled_from(NUMERIC).flatmap(of),
                                   st.sampled_from(NUMERIC).flatmap(of)),
                   nums, any_,
                   st.tuples(odd_values(), st.sampled_from(PAIRS).flatmap(of)),
                   st.tuples(st.sampled_from(PAIRS).flatmap(of),
                             odd_values()),
                   st.tuples(odd_values(), odd_values()))


shapes = st.one_of(kpub.shape_specs(3, 1, first=(3, 5, 2, 1, 9, 0)),
                   kpub.shape_specs(3, 0, first=(3, 2, 1)))
# (shape, cut of the one or the other side, kind of incompatibility)
layouts = st.tuples(shapes, st.integers(0, 5), st.integers(0, 2),
                    st.integers(0, 15))


def lay(layout):
  spec, k, side, odd = layout
  shape = kpub.shape_of(spec)
  a = b = shape
  if side == 1:
    a = kpub.cut(shape, k)
  elif side == 2:
    b = kpub.cut(shape, k)
  if odd == 15 and a:
    a = a[:-1] + (tuple(x + 1 for x in a[-1]),)
  return a, b


def make(d, spec, shape, ids, bag='-'):
  schema, pattern = spec
  items = [ids[int(t[1])] if t in ('o0', 'o1', 'o2') else t
           for t in kpub.fill(pattern, kcast.size(shape))]
  return kpub.mk(d, schema, shape, items, bag)


def joint(a, b):
  """The items of two slices, broadcast; and their shape."""
  shape = max(a.shape, b.shape, key=len)
  return (kcast.broadcast(a.items, a.shape, shape),
          kcast.broadcast(b.items, b.shape, shape), shape)


def narrowed(v):
  return kcast.narrowed(v.schema, v.items, None)


def held(v):
  """The one type the values of a slice have; NONE without any."""
  if v.schema not in ('sOBJECT', 'sNONE'):
    return v.schema
  kinds = {kcast.OF[t[0]] for t in v.items if t != '_'}
  if len(kinds) > 1:
    raise Bad('mixed types')
  return kinds.pop() if kinds else 'sNONE'


def fits(v, types):
  return narrowed(v) in types + ('sNONE',)


def number(tok, t):
  n = kcast.num(kcast.convert(tok, t))
  return {'sINT32': np.int32, 'sINT64': np.int64, 'sFLOAT32': np.float32,
          'sFLOAT64': np.float64}[t](n)


def token(x):
  if isinstance(x, np.float32):
    return f(float(x))
  if isinstance(x, np.float64):
    return g(float(x))
  return ('i' if isinstance(x, np.int32) else 'l') + str(int(x))


def floatish(t):
  return t if t in ('sFLOAT32', 'sFLOAT64') else 'sFLOAT32'


def same(got, want):
  """Equal items; any NaN or zero is as good as another."""
  def canon(t):
    if t[0] in 'fd':
      x = kcast.num(t)
      return t[0] + 'nan' if x != x else t if x else t[0] + 'zero'
    return t
  return [canon(t) for t in got] == [canon(t) for t in want]


def agree(d, reg, schema, shape, items, what):
  got = kpub.show(d, reg)
  expect_eq((got.schema, kcast.shape_tok(got.shape)),
            (schema, kcast.shape_tok(shape)), what)
  expect(same(got.items, items), f'{what}: {got.items} instead of {items}')


def present(items):
  return sum(t != '_' for t in items)


def attempt(d, call, model, what):
  """Returns the items of the result, None if it has to be rejected."""
  try:
    want = model()
  except Bad:
    expect(d.fails(*call), f'{what} was accepted')
    vp.label('rejected')
    return None
  agree(d, d.call(*call), *want, what)
  return want[2]


# --- arithmetic -------------------------------------------------------------


def arithmetic(op, a, b, t):
  """One number, as a token of the result type."""
  if op in ('kd.math.divide', 'kd.math.pow'):
    r = floatish(t)
    if op == 'kd.math.divide':
      return token(number(a, t).astype(NP[r]) / number(b, t).astype(NP[r]))
    x, y = number(a, t), number(b, t)
    if t in ('sINT32', 'sINT64'):
      x, y = np.float64(x), np.float64(y)
    return token(np.power(x, y).astype(NP[r]))
  x, y = number(a, t), number(b, t)
  if op == 'kd.math.add':
    return token(x + y)
  if op == 'kd.math.subtract':
    return token(x - y)
  if op == 'kd.math.multiply':
    return token(x * y)
  if op in ('kd.math.maximum', 'kd.math.minimum'):
    if x != x or y != y:
      return token(x if x != x else y)
    pick = x if (x < y) == (op == 'kd.math.minimum') else y
    return token(x if x == y else pick)
  if op in ('kd.math.floordiv', 'kd.math.mod'):
    if t in ('sINT32', 'sINT64'):
      if y == 0:
        raise Bad('division by zero')
      i, j = int(x), int(y)
      return token(np.array(i // j if op == 'kd.math.floordiv' else i % j
                            ).astype(NP[t])[()])
    if op == 'kd.math.floordiv':
      return token(np.floor(x / y))
    if y == 0 or math.isinf(y) or math.isinf(x) or y != y or x != x:
      return None
    return token(np.mod(x, y))
  x, y = int(x), int(y)
  r = {'kd.bitwise.bitwise_and': x & y, 'kd.bitwise.bitwise_or': x | y,
       'kd.bitwise.bitwise_xor': x ^ y}[op]
  return token(NP[t](r))


NP = {'sINT32': np.int32, 'sINT64': np.int64, 'sFLOAT32': np.float32,
      'sFLOAT64': np.float64}
BINARY = ('kd.math.add', 'kd.math.subtract', 'kd.math.multiply',
          'kd.math.divide', 'kd.math.floordiv', 'kd.math.mod', 'kd.math.pow',
          'kd.math.maximum', 'kd.math.minimum', 'kd.bitwise.bitwise_and',
          'kd.bitwise.bitwise_or', 'kd.bitwise.bitwise_xor')


@check.clause(st.tuples(st.sampled_from(BINARY), pairs(), layouts),
              n=3000, thorough=60000, budget_s=25)
def binary(case):
  op, (sa, sb), layout = case
  d = kd.driver()
  ids = kd.Alloc(d, 'e', 3)
  sh = lay(layout)
  a, b = make(d, sa, sh[0], ids), make(d, sb, sh[1], ids)
  if op == 'kd.math.pow':
    # Only exact results.
    small = lambda v, ok: [t if t[0] not in 'ilfd' or kcast.num(t) in ok
                           else '_' for t in v.items]
    a = kpub.mk(d, a.schema, a.shape, small(a, (0, 1, 2, -7, 12, -2.5, 3.5)))
    b = kpub.mk(d, b.schema, b.shape, small(b, (0, 1, 2, 3)))
  types = NUMERIC
  if 'bitwise' in op:
    types = ('sINT32', 'sINT64')
  if op == 'kd.math.add':
    types = types + ('sSTRING', 'sBYTES')
  unclear = []

  def model():
    xs, ys, shape = joint(a, b)
    if not fits(a, types) or not fits(b, types):
      raise Bad('types')
    common = kcast.common([narrowed(a), narrowed(b)])
    if common == 'sOBJECT':
      raise Bad('no common type')
    ta, tb = held(a), held(b)
    t = kcast.common([ta, tb])
    out = []
    with np.errstate(all='ignore'):
      for x, y in zip(xs, ys):
        if x == '_' or y == '_':
          out.append('_')
        elif x[0] in 'ty':
          out.append(x + y[1:])
        else:
          r = arithmetic(op, x, y, t)
          if r is None:
            unclear.append(1)
          out.append(r or '_')
    floats = op in ('kd.math.divide', 'kd.math.pow')
    up = lambda s: floatish(s) if floats and s in NUMERIC else s
    if {'sOBJECT', 'sNONE'} & {a.schema, b.schema}:
      schema = (up(a.schema) if a.schema == 'sOBJECT' or b.schema == 'sNONE'
                else up(b.schema))
    else:
      schema = up(t)
    return schema, shape, out

  what = f'{op} of {a} and {b}'
  call = ('op', op, a.reg, b.reg)
  try:
    model()
  except Bad:
    pass
  if unclear:
    return False
  got = attempt(d, call, model, what)
  kpub.check(d, a.reg, a.schema, a.shape, a.items, f'argument of {what}')
  return got is not None and present(got) > 1


def one(op, tok):
  t = kcast.OF[tok[0]]
  x = number(tok, t)
  isint = t in ('sINT32', 'sINT64')
  name = op.split('.')[-1]
  if name == 'pos':
    return tok
  if name == 'neg':
    return token(np.negative(x))
  if name == 'abs':
    return token(np.abs(x))
  if name == 'sign':
    return tok if x != x else token(NP[t]((x > 0) * 1 - (x < 0) * 1))
  if name == 'is_nan':
    return 'p' if x != x else '_'
  if name in ('floor', 'ceil'):
    return token({'floor': np.floor, 'ceil': np.ceil}[name](x))
  if name == 'round':
    r = math.copysign(math.floor(abs(x) + 0.5), x) if np.isfinite(x) else x
    return token(NP[t](r))
  if name == 'invert':
    return token(~x)
  if name == 'count':
    return 'i%d' % bin(int(x) & (2**(32 if t == 'sINT32' else 64) - 1)).count(
        '1')
  if name == 'sqrt':
    return token(np.sqrt(x.astype(NP[floatish(t)])))
  raise AssertionError(name)


UNARY = tuple('kd.math.' + n for n in ('pos', 'neg', 'abs', 'sign', 'is_nan',
                                       'floor', 'ceil', 'round', 'sqrt')) + (
    'kd.bitwise.invert', 'kd.bitwise.count')


@check.clause(st.tuples(st.sampled_from(UNARY), st.one_of(
    st.sampled_from(NUMERIC).flatmap(of), st.sampled_from(NUMERIC).flatmap(of),
    st.sampled_from(PAIRS).flatmap(of), odd_values()), shapes),
              n=1200, thorough=25000, budget_s=15)
def unary(case):
  op, spec, sh = case
  d = kd.driver()
  v = make(d, spec, kpub.shape_of(sh), kd.Alloc(d, 'e', 3))
  name = op.split('.')[-1]
  types = ('sINT32', 'sINT64') if 'bitwise' in op else NUMERIC
  what = f'{op} of {v}'
  # What rounding makes of integers is up to arolla.
  if name in ('floor', 'ceil', 'round') and any(t[0] in 'il' for t in v.items):
    return False
  if name in ('floor', 'ceil', 'round') and v.schema in ('sINT32', 'sINT64'):
    return False

  def model():
    if not fits(v, types):
      raise Bad('types')
    t = held(v)
    with np.errstate(all='ignore'):
      out = ['_' if x == '_' else one(op, x) for x in v.items]
    schema = v.schema
    if name == 'is_nan':
      schema = 'sMASK'
    elif name == 'count':
      schema = 'sINT32'
    elif schema not in ('sOBJECT', 'sNONE') and name == 'sqrt':
      schema = floatish(t)
    return schema, v.shape, out

  got = attempt(d, ('op', op, v.reg), model, what)
  return got is not None and present(got) > 1


# --- comparison -------------------------------------------------------------


def eq(x, y):
  if x == '_' or y == '_':
    return False
  if x[0] in 'ilfd' and y[0] in 'ilfd':
    t = kcast.common([kcast.OF[x[0]], kcast.OF[y[0]]])
    return bool(number(x, t) == number(y, t))
  return x == y


def less(x, y):
  if x[0] in 'ilfd':
    t = kcast.common([kcast.OF[x[0]], kcast.OF[y[0]]])
    return bool(number(x, t) < number(y, t))
  if x[0] in 'ty':
    return kd.unpct(x[1:]) < kd.unpct(y[1:])
  return x < y


ORDER = ('sINT32', 'sINT64', 'sFLOAT32', 'sFLOAT64', 'sSTRING', 'sBYTES',
         'sBOOLEAN', 'sMASK')


@check.clause(st.tuples(st.sampled_from(('less', 'less_equal', 'greater',
                                         'greater_equal', 'equal', 'equal',
                                         'full_equal')),
                        pairs(), layouts, st.booleans()),
              n=3000, thorough=60000, budget_s=25)
def comparison(case):
  name, (sa, sb), layout, copy = case
  d = kd.driver()
  ids = kd.Alloc(d, 'e', 3)
  sh = lay(layout)
  a = make(d, sa, sh[0], ids)
  b = make(d, sa if copy else sb, sh[1], ids)
  what = f'{name} of {a} and {b}'
  call = ('op', 'kd.comparison.' + name, a.reg, b.reg)

  def model():
    xs, ys, shape = joint(a, b)
    if name in ('equal', 'full_equal'):
      kcast.common([a.schema, b.schema])
      out = ['p' if eq(x, y) else '_' for x, y in zip(xs, ys)]
      if name == 'full_equal':
        ok = all(p == 'p' or x == y == '_' for p, x, y in zip(out, xs, ys))
        return 'sMASK', (), ['p' if ok else '_']
      return 'sMASK', shape, out
    if not fits(a, ORDER) or not fits(b, ORDER):
      raise Bad('types')
    if kcast.common([narrowed(a), narrowed(b)]) == 'sOBJECT':
      raise Bad('types')
    held(a), held(b)
    out = []
    for x, y in zip(xs, ys):
      if x == '_' or y == '_':
        out.append('_')
        continue
      if 'greater' in name:
        x, y = y, x
      ok = less(x, y) or ('equal' in name and eq(x, y))
      out.append('p' if ok else '_')
    return 'sMASK', shape, out

  if name == 'full_equal':
    # Never rejected.
    try:
      want = model()
    except Bad:
      want = ('sMASK', (), ['_'])
    agree(d, d.call(*call), *want, what)
    return present(a.items) > 1 and want[2] == ['p']
  got = attempt(d, call, model, what)
  return got is not None and present(got) > 1


# --- masks ------------------------------------------------------------------


def mask_values(odd):
  if odd == 9:
    return 'sOBJECT', ['p', 'i1', '_']
  if odd == 8:
    return 'sINT32', ['_']
  if odd == 7:
    return 'sNONE', ['_']
  return None


@check.clause(st.tuples(st.sampled_from(('apply_mask', 'coalesce', 'coalesce',
                                         'disjoint_coalesce')),
                        pairs(), layouts, st.lists(st.booleans(), min_size=1,
                                                   max_size=5),
                        st.integers(0, 9), st.sampled_from(('sMASK', 'sMASK',
                                                            'sOBJECT'))),
              n=3000, thorough=60000, budget_s=25)
def masking(case):
  name, (sa, sb), layout, pattern, odd, mschema = case
  d = kd.driver()
  ids = kd.Alloc(d, 'e', 3)
  sh = lay(layout)
  a = make(d, sa, sh[0], ids)
  if name == 'apply_mask':
    b = make(d, mask_values(odd) or (mschema, ['p' if x else '_'
                                               for x in pattern]), sh[1], ids)
  else:
    b = make(d, sb, sh[1], ids)
    if name == 'disjoint_coalesce' and len(a.shape) <= len(b.shape) and odd:
      try:
        full = kcast.broadcast(a.items, a.shape, b.shape)
        b = kpub.mk(d, b.schema, b.shape,
                    [y if x == '_' else '_' for x, y in zip(full, b.items)])
      except Bad:
        pass
  what = f'{name} of {a} and {b}'

  def model():
    xs, ys, shape = joint(a, b)
    if name == 'apply_mask':
      if narrowed(b) not in ('sMASK', 'sNONE'):
        raise Bad('mask')
      return a.schema, shape, ['_' if y == '_' else x for x, y in zip(xs, ys)]
    schema = kcast.common([a.schema, b.schema])
    if name == 'disjoint_coalesce' and any(
        x != '_' and y != '_' for x, y in zip(xs, ys)):
      raise Bad('overlap')
    return schema, shape, [kcast.convert(y if x == '_' else x, schema)
                           for x, y in zip(xs, ys)]

  got = attempt(d, ('op', 'kd.masking.' + name, a.reg, b.reg), model, what)
  kpub.check(d, a.reg, a.schema, a.shape, a.items, f'x of {what}')
  kpub.check(d, b.reg, b.schema, b.shape, b.items, f'y of {what}')
  # Presence.
  kpub.check(d, d.call('op', 'kd.masking.has', a.reg), 'sMASK', a.shape,
             ['_' if t == '_' else 'p' for t in a.items], f'has of {a}')
  call = ('op', 'kd.masking._has_not', b.reg)
  if narrowed(b) in ('sMASK', 'sNONE'):
    kpub.check(d, d.call(*call), 'sMASK', b.shape,
               ['p' if t == '_' else '_' for t in b.items], f'not of {b}')
  else:
    expect(d.fails(*call), f'not of {b}')
  vp.label(name)
  return got is not None and present(got) > 1


@check.clause(st.tuples(st.integers(0, 2), st.integers(1, 5),
                        st.lists(st.booleans(), min_size=1, max_size=5),
                        st.lists(st.booleans(), min_size=1, max_size=5),
                        st.sampled_from(('coalesce', 'disjoint_coalesce')),
                        st.booleans()),
              n=400, thorough=8000, budget_s=10)
def entities(case):
  """Items of coalesced slices keep the attributes of their bags."""
  obj, n, pa, pb, name, one_bag = case
  d = kd.driver()
  bags = [d.call('b.new')]
  bags.append(bags[0] if one_bag else d.call('b.new'))
  schema = None
  if not obj:
    schema = d.call('f.uuschema', bags[0], '', 1, 'a',
                    kpub.mk(d, 'sSCHEMA', (), ['sINT32']).reg)
  sides = []
  for j, p in enumerate((pa, pb)):
    vals = [f'i{10 * j + i}' for i in range(n)]
    v = kpub.mk(d, 'sINT32', ((n,),), vals).reg
    like = kpub.mk(d, 'sMASK', ((n,),), ['p'] * n).reg
    if obj:
      e = d.call('f.objlike', bags[j], like, '-', 1, 'a', v)
    else:
      e = d.call('f.entitylike', bags[j], like, schema, 0, '-', 1, 'a', v)
    mask = ['p' if p[i % len(p)] else '_' for i in range(n)]
    if j and name == 'disjoint_coalesce':
      mask = ['p' if m == 'p' and sides[0][2][i] == '_' else '_'
              for i, m in enumerate(mask)]
    e = d.call('op', 'kd.masking.apply_mask', e,
               kpub.mk(d, 'sMASK', ((n,),), mask).reg)
    sides.append((e, vals, mask))
  r = d.call('op', 'kd.masking.' + name, sides[0][0], sides[1][0])
  want = []
  for i in range(n):
    w = '_'
    for _, vals, mask in reversed(sides):
      if mask[i] == 'p':
        w = vals[i]
    want.append(w)
  got = kpub.show(d, d.call('s.get', r, 'a'))
  expect_eq(got.items, want, f'attributes after {name}')
  return present(want) > 1


# --- aggregation ------------------------------------------------------------


AGG = ('sum', 'min', 'max', 'mean', 'argmin', 'argmax', 'cum_sum', 'cum_min',
       'cum_max', 'any', 'all')


@check.clause(st.tuples(st.sampled_from(AGG), st.one_of(
    st.sampled_from(NUMERIC).flatmap(of), st.sampled_from(NUMERIC).flatmap(of),
    of('sMASK'), st.sampled_from(PAIRS).flatmap(of), odd_values()), shapes),
              n=1500, thorough=30000, budget_s=15)
def aggregation(case):
  name, spec, sh = case
  d = kd.driver()
  v = make(d, spec, kpub.shape_of(sh), kd.Alloc(d, 'e', 3))
  op = {'sum': 'kd.math._agg_sum', 'min': 'kd.math._agg_min',
        'max': 'kd.math._agg_max', 'mean': 'kd.math._agg_mean',
        'argmin': 'kd.math._argmin', 'argmax': 'kd.math._argmax',
        'any': 'kd.masking._agg_any', 'all': 'kd.masking._agg_all'}.get(
            name, 'kd.math._' + name)
  what = f'{name} of {v}'
  if any(t[0] in 'fd' and not math.isfinite(kcast.num(t)) for t in v.items
         if t != '_'):
    return False
  masks = name in ('any', 'all')

  def model():
    if not fits(v, ('sMASK',) if masks else NUMERIC):
      raise Bad('types')
    t = held(v)
    if not v.shape:
      raise Bad('rank')
    into = not name.startswith('cum_')
    out = []
    with np.errstate(all='ignore'):
      for grp in kcast.groups(v.items, v.shape[-1]):
        p = [x for x in grp if x != '_']
        if masks:
          out.append('p' if (p if name == 'any' else len(p) == len(grp))
                     else '_')
        elif not into:
          acc = None
          for x in grp:
            if x == '_':
              out.append('_')
              continue
            x = number(x, t)
            if acc is None:
              acc = x
            elif name == 'cum_sum':
              acc = acc + x
            else:
              acc = min(acc, x) if name == 'cum_min' else max(acc, x)
            out.append(token(acc))
        elif name == 'sum':
          s = NP[t if t != 'sNONE' else 'sINT32'](0)
          for x in p:
            s = s + number(x, t)
          out.append(token(s))
        elif not p:
          out.append('_')
        elif name == 'mean':
          s = sum(float(kcast.num(x)) for x in p) / len(p)
          out.append(token(NP[floatish(t)](s)))
        elif name in ('min', 'max'):
          out.append(token({'min': min, 'max': max}[name](
              number(x, t) for x in p)))
        else:
          best = {'argmin': min, 'argmax': max}[name](
              number(x, t) for x in p)
          out.append('l%d' % next(i for i, x in enumerate(grp)
                                  if x != '_' and number(x, t) == best))
    schema = v.schema
    if masks:
      schema = 'sMASK'
    elif name in ('argmin', 'argmax'):
      schema = 'sINT64'
    elif name == 'sum':
      schema = 'sINT32' if schema == 'sNONE' else schema
    elif name == 'mean' and schema in NUMERIC:
      schema = floatish(schema)
    return schema, v.shape[:-1] if into else v.shape, out

  got = attempt(d, ('op', op, v.reg), model, what)
  vp.label(name)
  return got is not None and present(got) > 1


if __name__ == '__main__':
  check.main()
