"""Typed trees: nested entities, lists and dicts with known content.

A type is a dtype token, ('e', ((name, type), ...)), ('l', type) or
('d', key, value type); a value is an item token, ('e', {name: value}),
('l', [value]) or ('d', {key: value}).
"""
import kcast
import kd
import kpub
from vp import st, expect_eq

LEAF = ('sINT32', 'sINT64', 'sFLOAT32', 'sSTRING', 'sBYTES', 'sMASK',
        'sBOOLEAN')


def types(depth):
  leaf = st.sampled_from(LEAF)
  if not depth:
    return leaf
  sub = types(depth - 1)
  return st.one_of(
      st.sampled_from(LEAF),
      st.tuples(st.just('l'), sub),
      st.tuples(st.just('d'), st.sampled_from(('sINT32', 'sINT64', 'sSTRING')),
                sub),
      entity(sub))


def entity(sub):
  return st.tuples(st.just('e'), st.dictionaries(st.sampled_from('abc'), sub,
                                                 min_size=1, max_size=3).map(
      lambda x: tuple(sorted(x.items()))))


POOL = {'sINT32': ('i0', 'i5'), 'sINT64': ('l7', 'l-1'),
        'sFLOAT32': ('f3f800000', 'f40000000'), 'sSTRING': ('t12', 't3'),
        'sBYTES': ('y12', 'y4'), 'sMASK': ('p', 'p'), 'sBOOLEAN': ('b0', 'b1')}


def build_schema(d, bag, t):
  if isinstance(t, str):
    return kpub.mk(d, 'sSCHEMA', (), [t]).reg
  if t[0] == 'l':
    return d.call('f.listschema', bag, build_schema(d, bag, t[1]))
  if t[0] == 'd':
    return d.call('f.dictschema', bag, build_schema(d, bag, t[1]),
                  build_schema(d, bag, t[2]))
  args = [x for k, v in t[1] for x in (k, build_schema(d, bag, v))]
  return d.call('f.schema', bag, len(t[1]), *args)


def build_data(d, bag, t, schema, n, seed):
  """A slice of n values, and what it holds (nested Python values)."""
  if isinstance(t, str):
    items = [('_' if (seed + 3 * i) % 5 == 0 else
              POOL[t][(seed + i) % 2]) for i in range(n)]
    return kpub.mk(d, t, ((n,),), items, bag).reg, items
  reg = kpub.show(d, schema).items[0]
  if t[0] == 'e':
    args, vals = [], []
    for j, (k, v) in enumerate(t[1]):
      sub = d.call('s.get', schema, k)
      r, x = build_data(d, bag, v, sub, n, seed + j + 1)
      args += [k, r]
      vals.append((k, x))
    shape = kpub.mk(d, 'sMASK', ((n,),), ['p'] * n).reg
    ent = d.call('f.entitylike', bag, shape, schema, 0, '-', len(t[1]), *args)
    return ent, [('e', {k: x[i] for k, x in vals}) for i in range(n)]
  sizes = tuple((seed + i) % 3 for i in range(n))
  total = sum(sizes)
  if t[0] == 'l':
    sub = d.call('s.get', schema, '__items__')
    r, x = build_data(d, bag, t[1], sub, total, seed + 1)
    r = d.call('s.reshape', r, kcast.shape_tok(((n,), sizes)))
    like = kpub.mk(d, 'sMASK', ((n,),), ['p'] * n).reg
    return (d.call('f.listlike', bag, like, r, schema, '-', '-'),
            [('l', g) for g in kcast.groups(x, sizes)])
  sub = d.call('s.get', schema, '__values__')
  r, x = build_data(d, bag, t[2], sub, total, seed + 1)
  keys = []
  for s in sizes:
    keys += [{'sINT32': 'i%d', 'sINT64': 'l%d', 'sSTRING': 't1%d'}[t[1]] % i
             for i in range(s)]
  shape = kcast.shape_tok(((n,), sizes))
  k = kpub.mk(d, t[1], ((n,), sizes), keys).reg
  like = kpub.mk(d, 'sMASK', ((n,),), ['p'] * n).reg
  r = d.call('s.reshape', r, shape)
  out = d.call('f.dictlike', bag, like, k, r, schema, '-', '-', '-')
  return out, [('d', {k: v for k, v in zip(a, b) if v != '_'}) for a, b in zip(
      kcast.groups(keys, sizes), kcast.groups(x, sizes))]


def read(d, reg, t, n):
  """The values of a slice of the type."""
  s = kpub.show(d, reg)
  if isinstance(t, str):
    expect_eq(s.schema, t, 'schema of a leaf')
    return s.items
  if t[0] == 'e':
    cols = {k: read(d, d.call('s.get', reg, k), x, n) for k, x in t[1]}
    return ['_' if s.items[i] == '_' else ('e', {k: c[i] for k, c in
                                                  cols.items()})
            for i in range(n)]
  if t[0] == 'l':
    ex = d.call('s.explode', reg, 0, '-')
    shape = kpub.show(d, ex).shape
    total = kcast.size(shape)
    flat = d.call('s.reshape', ex, kcast.shape_tok(((total,),)))
    vals = read(d, flat, t[1], total)
    return ['_' if i == '_' else ('l', g)
            for i, g in zip(s.items, kcast.groups(vals, shape[-1]))]
  keys = d.call('s.dkeys', reg)
  ks = kpub.show(d, keys)
  expect_eq(ks.schema, t[1], 'schema of keys')
  total = kcast.size(ks.shape)
  vs = read(d, d.call('s.reshape', d.call('s.dvals', reg),
                      kcast.shape_tok(((total,),))), t[2], total)
  out = []
  for i, a, b in zip(s.items, kcast.groups(ks.items, ks.shape[-1]),
                     kcast.groups(vs, ks.shape[-1])):
    out.append('_' if i == '_' else ('d', {k: v for k, v in zip(a, b)
                                           if v != '_'}))
  return out
