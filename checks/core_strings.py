"""C32: string operators over slices follow Python's string functions."""
import base64

import kcast
import kd
import kpub
import vp
from kcast import Bad
from vp import expect, expect_eq, st

check = vp.Check(
    'C32',
    'Slices of STRING or BYTES values (typed, boxed in OBJECT, mixed, missing,'
    ' NONE; scalars and jagged shapes of different ranks, also incompatible'
    ' ones; wrong types) through the string operators, with offsets and limits'
    ' as slices; compared with Python\'s string functions on the items of the'
    ' nested lists. Non-trivial: the operation is accepted and gives two or'
    ' more present items.',
    ['arolla is replaced by the stand-in in shims/kcore, which also provides'
     ' the string functions on single values.',
     'Where arolla leaves Python (empty separators of split, overlapping'
     ' occurrences in count, unusual whitespace, case mappings beyond'
     ' ASCII), nothing is compared. Regular expressions and formatting are'
     ' not covered.'])


@check.setup
def _setup():
  kd.build('strings', ['kcore_public.cc', 'kcore_ops.cc'],
           groups=('internal', 'public', 'operators'))


WORDS = ('', 'a', 'ab', 'aba', 'abcabc', ' a b ', '\tb  a\n', 'é', 'aéb', '你好',
         'Éa ß', 'ΑΒγ', 'x.y.z', '  ', 'aaaa', 'b\u00a0a', 'A long string that'
         ' does not fit anywhere', '😀a😀')
PARTS = ('', 'a', 'b', 'ab', 'é', ' ', '.', '好', 'aa', 'ca', '😀', 'zz')
RAW = (b'\xff', b'\x00\xff\x00', b'a\xffb', b'\xc3')


def text(s):
  return 't' + kd.pct(s.encode())


def raw(s):
  return 'y' + kd.pct(s)


def value(tok):
  """The Python str or bytes of a token."""
  b = kd.unpct(tok[1:])
  return b.decode() if tok[0] == 't' else b


def token(v):
  if v is None:
    return '_'
  if isinstance(v, str):
    return text(v)
  if isinstance(v, bytes):
    return raw(v)
  if v is True:
    return 'p'
  return 'l%d' % v


KIND = {
    'text': tuple(text(w) for w in WORDS),
    'textpart': tuple(text(w) for w in PARTS),
    'bytes': tuple(raw(w.encode()) for w in WORDS) + tuple(map(raw, RAW)),
    'bytespart': tuple(raw(w.encode()) for w in PARTS) + tuple(
        map(raw, RAW[:2])),
}


def of(kind, schema):
  return st.tuples(
      st.sampled_from((schema,) * 4 + ('sOBJECT',)),
      st.lists(st.sampled_from(KIND[kind] + ('_',)), min_size=3, max_size=7))


def odd():
  return st.one_of(
      st.tuples(st.just('sOBJECT'), st.lists(st.sampled_from(
          ('ta', 'ya', 'i1', '_', 'b1', 'p')), min_size=1, max_size=4)),
      st.tuples(st.sampled_from(('sNONE', 'sOBJECT', 'sSTRING', 'sBYTES',
                                 'sINT32', 'sMASK')), st.just(['_'])),
      st.tuples(st.just('sINT32'), st.just(['i1', '_'])))


def args(n):
  """A subject and further strings of the same type, mostly."""
  t = st.tuples(of('text', 'sSTRING'), *[of('textpart', 'sSTRING')] * (n - 1))
  b = st.tuples(of('bytes', 'sBYTES'), *[of('bytespart', 'sBYTES')] * (n - 1))
  mix = st.tuples(*[st.one_of(of('text', 'sSTRING'), of('bytes', 'sBYTES'),
                              odd()) for _ in range(n)])
  t2 = st.tuples(of('text', 'sSTRING'), *[of('textpart', 'sSTRING')] * (n - 1))
  miss = st.tuples(st.one_of(of('text', 'sSTRING'), odd()),
                   *[st.one_of(of('textpart', 'sSTRING'), odd())
                     for _ in range(n - 1)])
  return st.one_of(t, b, t2, mix, miss)


def offsets():
  return st.one_of(
      st.tuples(st.sampled_from(('sINT32', 'sINT32', 'sOBJECT')),
                st.lists(st.sampled_from(('i0', 'i1', 'i2', 'i-1', 'i-3', 'i5',
                                          'i100', 'i-100', '_')), min_size=2,
                         max_size=5)),
      st.tuples(st.sampled_from(('sINT64', 'sINT64', 'sOBJECT')),
                st.lists(st.sampled_from(('l0', 'l1', 'l3', 'l-1', 'l-2', '_',
                                          'l9000000000', 'l-9000000000')),
                         min_size=1, max_size=5)),
      st.tuples(st.sampled_from(('sNONE', 'sINT64', 'sINT32', 'sOBJECT')),
                st.just(['_'])),
      st.tuples(st.sampled_from(('sINT64',)), st.just(['_'])),
      st.tuples(st.sampled_from(('sFLOAT32', 'sSTRING', 'sMASK')),
                st.just(['_'])),
      st.tuples(st.just('sOBJECT'), st.just(['i1', 'l2'])))


shapes = kpub.shape_specs(3, 0, first=(5, 3, 2, 1, 9, 0))
# (shape, how much each argument keeps of it, which one is incompatible)
layouts = st.tuples(shapes, st.lists(st.sampled_from((9, 9, 0, 0, 1, 2)),
                                     min_size=4, max_size=4),
                    st.integers(0, 60))


def lay(layout, n):
  spec, keep, off = layout
  shape = kpub.shape_of(spec)
  out = [shape[:k] for k in keep[:n]]
  if off < n and out[off]:
    s = out[off]
    out[off] = s[:-1] + (tuple(x + 1 for x in s[-1]),)
  return out


def make(d, spec, shape):
  schema, pattern = spec
  return kpub.mk(d, schema, shape, kpub.fill(pattern, kcast.size(shape)))


def joint(vs):
  """The items of slices, broadcast to the largest of their shapes."""
  shape = max((v.shape for v in vs), key=len)
  return [kcast.broadcast(v.items, v.shape, shape) for v in vs], shape


def narrowed(v):
  return kcast.narrowed(v.schema, v.items, None)


def strings(vs, types=('sSTRING', 'sBYTES')):
  """All of these hold strings of one of the types."""
  seen = set()
  for v in vs:
    n = narrowed(v)
    if n == 'sNONE':
      continue
    if n not in types:
      raise Bad('type')
    seen.add(n)
  if len(seen) > 1:
    raise Bad('mixed')
  return seen.pop() if seen else None


def integers(vs):
  for v in vs:
    if narrowed(v) not in ('sINT32', 'sINT64', 'sNONE'):
      raise Bad('integer')


def known(v):
  """The slice has a type even if all its items are missing."""
  return v.schema not in ('sNONE', 'sOBJECT') or any(
      t != '_' for t in v.items)


def attempt(d, call, model, what):
  try:
    want = model()
  except Bad:
    expect(d.fails(*call), f'{what} was accepted')
    vp.label('rejected')
    return None
  kpub.check(d, d.call(*call), *want, what)
  return sum(t != '_' for t in want[2])


def pointwise(vs, fn):
  cols, shape = joint(vs)
  return shape, [token(fn(*[None if t == '_' else
                            value(t) if t[0] in 'ty' else int(t[1:])
                            for t in row])) for row in zip(*cols)]


def common(*vs):
  return kcast.common([v.schema for v in vs])


def untouched(d, vs, what):
  for v in vs:
    kpub.check(d, v.reg, v.schema, v.shape, v.items, f'argument of {what}')


# --- two strings -------------------------------------------------------------


def overlapping(s, sub):
  return sum(s[i:i + len(sub)] == sub for i in range(len(s)))


TWO = ('contains', 'count', 'strip', 'lstrip', 'rstrip', 'join', 'strip')


@check.clause(st.tuples(st.sampled_from(TWO), args(2), layouts),
              n=3000, thorough=60000, budget_s=20)
def two(case):
  name, specs, layout = case
  d = kd.driver()
  vs = [make(d, s, sh) for s, sh in zip(specs, lay(layout, 2))]
  what = f'{name} of {vs}'
  unclear = []

  def fn(s, x):
    if name in ('strip', 'lstrip', 'rstrip'):
      return None if s is None else getattr(s, name)(x)
    if s is None or x is None:
      return None
    if name == 'contains':
      return True if x in s else None
    if name == 'count':
      if not x or overlapping(s, x) != s.count(x):
        unclear.append(1)
      return s.count(x)
    return s + x

  def model():
    strings(vs)
    shape, out = pointwise(vs, fn)
    schema = {'contains': 'sMASK', 'count': 'sINT64'}.get(name, common(*vs))
    return schema, shape, out

  try:
    model()
  except Bad:
    pass
  if unclear:
    return False
  n = attempt(d, ('op', 'kd.strings.' + name, *[v.reg for v in vs]), model,
              what)
  untouched(d, vs, what)
  return n is not None and n > 1


# --- joining several ----------------------------------------------------------


@check.clause(st.tuples(st.integers(1, 4).flatmap(args), layouts),
              n=800, thorough=25000, budget_s=12)
def join(case):
  specs, layout = case
  d = kd.driver()
  vs = [make(d, s, sh) for s, sh in zip(specs, lay(layout, len(specs)))]

  def fn(*xs):
    if any(x is None for x in xs):
      return None
    return xs[0][:0].join(xs)

  def model():
    # The others are compared with the first one.
    strings(vs)
    shape, out = pointwise(vs, fn)
    return common(*vs), shape, out

  n = attempt(d, ('op', 'kd.strings.join', *[v.reg for v in vs]), model,
              f'join of {vs}')
  return n is not None and n > 1


# --- offsets -------------------------------------------------------------------


@check.clause(st.tuples(st.sampled_from(('find', 'rfind')), args(2), offsets(),
                        offsets(), layouts),
              n=2500, thorough=50000, budget_s=20)
def find(case):
  name, specs, a, b, layout = case
  d = kd.driver()
  vs = [make(d, s, sh) for s, sh in zip(list(specs) + [a, b],
                                        lay(layout, 4))]

  def fn(s, x, i, j):
    if s is None or x is None:
      return None
    r = getattr(s, name)(x, i, j)
    return None if r < 0 else r

  def model():
    strings(vs[:2])
    integers(vs[2:])
    shape, out = pointwise(vs, fn)
    return 'sINT64', shape, out

  n = attempt(d, ('op', 'kd.strings.' + name, *[v.reg for v in vs]), model,
              f'{name} of {vs}')
  return n is not None and n > 1


@check.clause(st.tuples(args(1), offsets(), offsets(), layouts),
              n=1500, thorough=30000, budget_s=12)
def substr(case):
  specs, a, b, layout = case
  d = kd.driver()
  vs = [make(d, s, sh) for s, sh in zip(list(specs) + [a, b],
                                        lay(layout, 3))]

  def model():
    strings(vs[:1])
    integers(vs[1:])
    shape, out = pointwise(vs, lambda s, i, j: None if s is None else s[i:j])
    return vs[0].schema, shape, out

  n = attempt(d, ('op', 'kd.strings.substr', *[v.reg for v in vs]), model,
              f'substr of {vs}')
  return n is not None and n > 1


@check.clause(st.tuples(args(3), offsets(), layouts),
              n=2000, thorough=40000, budget_s=15)
def replace(case):
  specs, limit, layout = case
  d = kd.driver()
  vs = [make(d, s, sh) for s, sh in zip(list(specs) + [limit],
                                        lay(layout, 4))]

  def fn(s, a, b, n):
    if s is None or a is None or b is None:
      return None
    return s.replace(a, b, -1 if n is None or n < 0 else n)

  def model():
    strings(vs[:3])
    integers(vs[3:])
    shape, out = pointwise(vs, fn)
    return vs[0].schema, shape, out

  n = attempt(d, ('op', 'kd.strings.replace', *[v.reg for v in vs]), model,
              f'replace of {vs}')
  return n is not None and n > 1


# --- one string -----------------------------------------------------------------


ONE = ('length', 'lower', 'upper', 'encode', 'decode', 'decode:ignore',
       'decode:replace', 'encode_base64')


@check.clause(st.tuples(st.sampled_from(ONE), args(1), shapes),
              n=2000, thorough=40000, budget_s=15)
def one(case):
  name, (spec,), sh = case
  d = kd.driver()
  v = make(d, spec, kpub.shape_of(sh))
  name, _, errors = name.partition(':')
  if errors and any(t[0] == 'y' and b'\xc3' in value(t).replace(
      'é'.encode(), b'').replace('É'.encode(), b'').replace(
          'ß'.encode(), b'') for t in v.items):
    return False  # How many bytes one replacement stands for.
  if name in ('lower', 'upper') and any(
      t[0] == 't' and not value(t).isascii() for t in v.items):
    return False
  if name == 'decode' and not errors:
    errors = 'strict'

  def fn(x):
    if x is None:
      return None
    if name == 'length':
      return len(x)
    if name in ('lower', 'upper'):
      return getattr(x, name)()
    if name == 'encode':
      return x.encode() if isinstance(x, str) else x
    if name == 'decode':
      try:
        return x.decode(errors=errors) if isinstance(x, bytes) else x
      except UnicodeDecodeError:
        raise Bad('UTF-8')
    return base64.b64encode(x).decode()

  def model():
    if name in ('encode', 'decode'):
      # Values of both types may be mixed.
      if v.schema not in ('sSTRING', 'sBYTES', 'sOBJECT', 'sNONE') or any(
          t != '_' and t[0] not in 'ty' for t in v.items):
        raise Bad('type')
    else:
      strings([v], {'length': ('sSTRING', 'sBYTES'),
                    'encode_base64': ('sBYTES',)}.get(name, ('sSTRING',)))
    shape, out = pointwise([v], fn)
    return {'length': 'sINT64', 'encode': 'sBYTES'}.get(
        name, 'sSTRING'), shape, out

  call = ['op', 'kd.strings.' + name, v.reg]
  if name == 'decode':
    call.append(d.call('s.mk', 'sSTRING', '-', 't' + errors, '-'))
  n = attempt(d, call, model, f'{case[0]} of {v}')
  return n is not None and n > 1


# (bytes, padded, where whitespace is put, damage)
coded = st.tuples(st.binary(max_size=7), st.booleans(), st.integers(0, 12),
                  st.sampled_from((0,) * 12 + (1, 2)))


@check.clause(st.tuples(st.lists(st.one_of(coded, st.none()), min_size=1,
                                 max_size=6), st.sampled_from('tttyo'),
                        st.booleans()),
              n=800, thorough=20000, budget_s=8)
def base64_text(case):
  values, kind, lenient = case
  d = kd.driver()
  items, want = [], []
  for v in values:
    if v is None:
      items.append('_')
      want.append('_')
      continue
    data, padded, at, damage = v
    s = base64.b64encode(data).decode()
    if not padded:
      s = s.rstrip('=')
    if damage == 1:
      s = s[:at] + '!' + s[at:]
    elif damage == 2:
      s = s.rstrip('=')
      s = s + 'A' * ((1 - len(s)) % 4)  # One character more than whole bytes.
    elif at < len(s):
      s = s[:at] + ' \n' + s[at:]
    items.append(('y' if kind == 'y' else 't') + kd.pct(s.encode()))
    want.append(None if damage else raw(data))
  schema = {'t': 'sSTRING', 'y': 'sBYTES', 'o': 'sOBJECT'}[kind]
  shape = ((len(items),),)
  v = kpub.mk(d, schema, shape, items)

  def model():
    if None in want and not lenient:
      raise Bad('invalid')
    return 'sBYTES', shape, [w or '_' for w in want]

  flag = 'b1' if lenient else 'b0'
  n = attempt(d, ('op', 'kd.strings._decode_base64', v.reg, flag), model,
              f'base64 of {v}')
  ok = [w for w in want if w and w != '_']
  if ok:
    x = kpub.mk(d, 'sBYTES', ((len(ok),),), ok)
    t = d.call('op', 'kd.strings.encode_base64', x.reg)
    back = kpub.show(d, d.call('op', 'kd.strings._decode_base64', t, 'b0'))
    expect_eq(back.items, ok, 'encoded and decoded')
  return n is not None and n > 1


# --- splitting and joining the last dimension ---------------------------------------


@check.clause(st.tuples(args(2), layouts, st.sampled_from((0, 0, 0, 0, 1))),
              n=2000, thorough=40000, budget_s=15)
def split(case):
  specs, layout, wide = case
  d = kd.driver()
  a, b = lay(layout, 2)
  if not wide:
    b = ()
  x, sep = make(d, specs[0], a), make(d, specs[1], b)
  if '' in [value(t) if t[0] == 't' else value(t).decode('latin1')
            for t in sep.items if t[0] in 'ty']:
    return False

  def model():
    strings([x, sep])
    if sep.shape:
      raise Bad('rank')
    s = None if sep.items[0] == '_' else value(sep.items[0])
    sizes, out = [], []
    for t in x.items:
      parts = [] if t == '_' else value(t).split(s)
      sizes.append(len(parts))
      out.extend(map(token, parts))
    return common(x, sep), x.shape + (tuple(sizes),), out

  n = attempt(d, ('op', 'kd.strings.split', x.reg, sep.reg), model,
              f'split of {x} by {sep}')
  if n is not None and n > 1 and sep.items[0] != '_' and all(
      t != '_' for t in x.items) and known(x):
    parts = d.call('op', 'kd.strings.split', x.reg, sep.reg)
    kpub.check(d, d.call('op', 'kd.strings._agg_join', parts, sep.reg),
               common(x, sep), x.shape, x.items, 'split and joined')
    vp.label('joined back')
  return n is not None and n > 1


@check.clause(st.tuples(args(2), layouts, st.sampled_from((0, 0, 0, 0, 1))),
              n=1500, thorough=30000, budget_s=12)
def agg_join(case):
  specs, layout, wide = case
  d = kd.driver()
  a, b = lay(layout, 2)
  if not wide:
    b = ()
  x, sep = make(d, specs[0], a), make(d, specs[1], b)

  def model():
    strings([x, sep])
    if sep.shape or not x.shape:
      raise Bad('rank')
    s = None if sep.items[0] == '_' else value(sep.items[0])
    out = []
    for g in kcast.groups(x.items, x.shape[-1]):
      vals = [value(t) for t in g if t != '_']
      if not vals:
        out.append('_')
      else:
        out.append(token((vals[0][:0] if s is None else s).join(vals)))
    return common(x, sep), x.shape[:-1], out

  n = attempt(d, ('op', 'kd.strings._agg_join', x.reg, sep.reg), model,
              f'agg_join of {x} with {sep}')
  return n is not None and n > 1


if __name__ == '__main__':
  check.main()
