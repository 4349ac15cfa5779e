"""C07: type information and dataclass helpers behind to_py/from_py."""
import collections.abc
import dataclasses
import types
import typing

import vp
from vp import st, expect, expect_eq
import repoenv

check = vp.Check(
    'C07',
    'Types are generated from a grammar (primitives, Any, optional in both'
    ' spellings and argument orders, unsupported unions, list/tuple/Sequence,'
    ' dict/Mapping, nested dataclasses, SimpleNamespace, string annotations)'
    ' together with the answer the grammar term implies; generated dataclasses'
    ' are queried for every field with fresh and shared caches. Equality and'
    ' field listing are checked on generated field/value maps. Non-trivial:'
    ' the type nests or the objects share a field.',
)
U = None


@check.setup
def _setup():
  global U
  repoenv.use_repo()
  from koladata.base.py_conversions import dataclasses_util as U_
  U = U_


PRIMS = [int, str, float, bool, bytes]

# Type terms: ('prim', i) ('any',) ('opt', t, spelling) ('union3',) ('list', t)
# ('seq', t) ('tuplev', t) ('tuple2', t) ('dict', k, v) ('map', k, v)
# ('set', t) ('ns',) ('dc', {name: t}) ('none',) ('union2', )
leaf = st.one_of(
    st.tuples(st.just('prim'), st.integers(0, 4)),
    st.just(('any',)), st.just(('ns',)), st.just(('none',)),
    st.tuples(st.just('bare'), st.integers(0, 2)),
)


def terms():
  def extend(c):
    return st.one_of(
        st.tuples(st.just('opt'), c, st.integers(0, 2)),
        st.tuples(st.just('opt'), c, st.integers(0, 2)),
        st.tuples(st.just('union2'), c), st.tuples(st.just('union3'), c),
        st.tuples(st.just('list'), c), st.tuples(st.just('seq'), c),
        st.tuples(st.just('tuplev'), c), st.tuples(st.just('tuple2'), c),
        st.tuples(st.just('tuple1'), c),
        st.tuples(st.just('dict'), c, c), st.tuples(st.just('map'), c, c),
        st.tuples(st.just('set'), c),
        st.tuples(st.just('dc'), st.dictionaries(
            st.sampled_from(['a', 'b', 'c']), c, min_size=1, max_size=3)),
    )
  return st.recursive(leaf, extend, max_leaves=6)


class _A:
  pass


class _B:
  pass


def build(t):
  k = t[0]
  if k == 'prim':
    return PRIMS[t[1]]
  if k == 'any':
    return typing.Any
  if k == 'ns':
    return types.SimpleNamespace
  if k == 'none':
    return types.NoneType
  if k == 'bare':
    return [list, dict, _A][t[1]]
  if k == 'opt':
    x = build(t[1])
    if t[2] == 0:
      return typing.Optional[x]
    if t[2] == 1:
      return typing.Union[None, x]
    try:
      return x | None
    except TypeError:
      return typing.Optional[x]
  if k == 'union2':
    return typing.Union[_B, _A]
  if k == 'union3':
    return typing.Union[build(t[1]), _A, _B, None]
  if k == 'list':
    return list[build(t[1])]
  if k == 'seq':
    return collections.abc.Sequence[build(t[1])]
  if k == 'tuplev':
    return tuple[build(t[1]), ...]
  if k == 'tuple2':
    return tuple[build(t[1]), int]
  if k == 'tuple1':
    return tuple[build(t[1])]
  if k == 'dict':
    return dict[build(t[1]), build(t[2])]
  if k == 'map':
    return collections.abc.Mapping[build(t[1]), build(t[2])]
  if k == 'set':
    return set[build(t[1])]
  if k == 'dc':
    return dataclasses.make_dataclass(
        'D', [(n, build(x)) for n, x in t[1].items()])
  raise vp.HarnessError(k)


ERR = 'ValueError'


def is_union_term(t):
  return t[0] in ('union2', 'union3', 'opt')


def decay_want(t, typ):
  """(underlying, optional) or ERR that maybe_decay_optional must give."""
  k = t[0]
  if k == 'any':
    return (None, True)
  if k in ('union2', 'union3'):
    return ERR
  if k == 'opt':
    inner = t[1]
    if inner[0] == 'none':
      return (types.NoneType, False)  # Optional[None] is just None.
    if inner[0] == 'opt':
      return decay_want(inner, typ)  # unions flatten
    if inner[0] in ('union2', 'union3'):
      return ERR
    if inner[0] == 'any':
      return (None, True)
    args = [a for a in typing.get_args(typ) if a is not types.NoneType]
    return (args[0], True)
  return (typ, False)


def call(fn):
  try:
    return fn()
  except ValueError:
    return ERR


@check.clause(
    lambda: st.one_of(terms(), st.tuples(st.just('opt'), terms(),
                                         st.integers(0, 2))),
    n=3000, thorough=50000)
def decay_optional(t):
  typ = build(t)
  want = decay_want(t, typ)
  got = call(lambda: U.maybe_decay_optional(typ))
  expect(got == want, 'maybe_decay_optional', got=got, want=want, type=typ)
  if t[0] == 'opt' and want not in (ERR,):
    # The spellings of "optional" agree.
    inner = build(t[1])
    spellings = [typing.Optional[inner], typing.Union[None, inner]]
    try:
      spellings += [inner | None, None | inner]
    except TypeError:
      pass
    res = [call(lambda: U.maybe_decay_optional(x)) for x in spellings]
    expect(all(r == res[0] for r in res), 'optional spellings disagree',
           got=res)
  return is_union_term(t)


def field_want(t, typ, for_primitive):
  k = t[0]
  if k == 'any':
    return (None, True)
  if k == 'dc':
    return (typ, False)
  d = decay_want(t, typ)
  if d == ERR:
    return ERR
  if d[1]:
    return d
  if k in ('list', 'seq', 'tuplev', 'tuple2', 'tuple1', 'dict', 'map', 'set',
           'ns'):
    return (typ, False)
  if for_primitive:
    # Optional[None] collapses to NoneType.
    return (d[0], False)
  return ERR


@check.clause(
    lambda: st.tuples(
        st.lists(st.dictionaries(
            st.sampled_from(['a', 'b', 'c', 'items', '__x', 'keys']), terms(),
            min_size=1, max_size=4), min_size=1, max_size=3),
        st.booleans(), st.booleans()),
    n=2000, thorough=30000)
def dataclass_fields(case):
  """Every field of several classes, shared cache vs fresh cache."""
  classes, inherit, reverse = case
  cache = {}
  built = []
  for fields in classes:
    anns = {n: build(x) for n, x in fields.items()}
    bases = ()
    all_fields = dict(fields)
    all_anns = dict(anns)
    if inherit and built:
      bases = (built[-1][0],)
      all_fields = dict(built[-1][1], **fields)
      all_anns = dict(built[-1][2], **anns)
    # All classes carry the same name on purpose.
    cls = dataclasses.make_dataclass(
        'Same', [(n, a, dataclasses.field(default=None))
                 for n, a in anns.items()], bases=bases)
    built.append((cls, all_fields, all_anns))
  order = list(reversed(built)) if reverse else built
  for _ in range(2):  # the second round reads the warm cache
    for cls, fields, anns in order:
      for n, t in fields.items():
        for prim in (False, True):
          want = field_want(t, anns[n], prim)
          got = call(lambda: U.get_class_field_type(cls, n, prim, cache))
          expect(got == want, 'field type', got=got, want=want, field=n,
                 for_primitive=prim, annotation=anns[n], case=case)
          fresh = call(lambda: U.get_class_field_type(cls, n, prim, {}))
          expect(fresh == want, 'field type (fresh cache)', got=fresh,
                 want=want, case=case)
      for missing in ('zz', 'a1'):
        expect(U.get_class_field_type(cls, missing, True, cache) is None,
               'unknown field must give None', case=case)
  return len(classes) > 1 or any(t[0] != 'prim' for f in classes
                                 for t in f.values())


@check.clause(lambda: st.tuples(terms(), st.booleans()), n=2500,
              thorough=40000)
def containers(case):
  t, prim = case
  typ = build(t)
  k = t[0]
  q = lambda name: call(lambda: U.get_class_field_type(typ, name, prim, {}))
  if k in ('list', 'seq', 'tuplev'):
    args0 = typing.get_args(typ)[0]
    expect_eq(q('__items__'), decay_want(t[1], args0), 'item type', type=typ)
    expect_eq(q('__keys__'), ERR, 'a sequence has no keys', type=typ)
    expect_eq(q('__values__'), ERR, 'a sequence has no values', type=typ)
    return True
  if k in ('tuple2', 'tuple1', 'set'):
    expect_eq(q('__items__'), ERR, 'unsupported container', type=typ)
    return True
  if k in ('dict', 'map'):
    a, b = typing.get_args(typ)
    expect_eq(q('__keys__'), decay_want(t[1], a), 'key type', type=typ)
    expect_eq(q('__values__'), decay_want(t[2], b), 'value type', type=typ)
    expect_eq(q('__items__'), ERR, 'a mapping has no items', type=typ)
    return True
  if k == 'prim' or k == 'bare':
    for n in ('__items__', '__keys__', '__values__', 'a'):
      expect_eq(q(n), ERR, 'primitive classes have no fields', type=typ)
  if k == 'ns':
    for n in ('__items__', 'a', 'zz'):
      expect_eq(q(n), (None, True) if prim else (types.SimpleNamespace, True),
                'SimpleNamespace accepts any field')
  expect_eq(U.get_class_field_type(None, 'a', prim, {}), (None, True),
            'no output class means any type')
  return False


values = st.recursive(
    st.one_of(st.none(), st.integers(0, 3), st.sampled_from(['', 'x'])),
    lambda c: st.one_of(st.lists(c, max_size=2),
                        st.tuples(st.just('DC'), st.dictionaries(
                            st.sampled_from(['a', 'b']), c, max_size=2))),
    max_leaves=4)
field_map = st.dictionaries(st.sampled_from(['a', 'b', 'c', 'd', 'self_']),
                            values, max_size=4)


def conv(v, plain):
  if isinstance(v, tuple) and v and v[0] == 'DC':
    return instance(v[1], 'Inner', plain)
  if isinstance(v, list):
    return [conv(x, plain) for x in v]
  return v


def instance(m, name, plain):
  if plain:
    cls = dataclasses.make_dataclass(name, list(m))
  else:
    cls = U.make_dataclass(name, list(m))
  return cls(**{k: conv(v, plain) for k, v in m.items()})


def norm(v):
  if isinstance(v, tuple) and v and v[0] == 'DC':
    return {k: norm(x) for k, x in v[1].items()}
  if isinstance(v, list):
    return [norm(x) for x in v]
  return v


@check.clause(
    lambda: st.tuples(field_map, st.one_of(st.none(), field_map),
                      st.booleans(), st.booleans()),
    n=3000, thorough=50000)
def equality(case):
  """Made dataclasses compare by fields and values, whatever the class."""
  a, b, plain, shuffle = case
  if b is None:
    b = dict(reversed(list(a.items()))) if shuffle else dict(a)
  x = instance(a, 'X', False)
  y = instance(b, 'Y', plain)
  want = {k: norm(v) for k, v in a.items()} == {
      k: norm(v) for k, v in b.items()}
  expect_eq(x == y, want, 'equality', a=a, b=b)
  expect_eq(y == x, want, 'equality is not symmetric', a=a, b=b)
  expect_eq(x != y, not want, 'inequality', a=a, b=b)
  for other in (dict(a), None, 3, 'X', types.SimpleNamespace(), type(x)):
    expect(not (x == other), 'equal to a non-dataclass value', other=other)
  return bool(set(a) & set(b))


@check.clause(lambda: field_map, n=1500, thorough=20000)
def field_listing(m):
  x = instance(m, 'X', False)
  want = [(k, conv(v, False)) for k, v in m.items()]
  for k, v in m.items():
    expect(getattr(x, k) == conv(v, False), 'field value')
  expect_eq(U.fields_names_and_values(x), want, 'fields of a made dataclass')
  p = instance(m, 'P', True)
  expect_eq([n for n, _ in U.fields_names_and_values(p)], list(m),
            'fields of a dataclass')
  ns = types.SimpleNamespace(**{k: conv(v, False) for k, v in m.items()})
  expect_eq(U.fields_names_and_values(ns), want, 'fields of a namespace')
  for other in (None, 1, [1], {'a': 1}, 'a', int):
    expect(U.fields_names_and_values(other) is None,
           'fields of a non-dataclass', other=other)
  # Missing values default to None.
  cls = U.make_dataclass('Z', list(m))
  expect_eq(cls.__name__, 'Z', 'class name')
  z = cls()
  expect(all(getattr(z, k) is None for k in m), 'default must be None')
  w = cls(*[conv(v, False) for v in m.values()])
  expect(w == x, 'positional construction keeps the field order')
  return len(m) >= 2


if __name__ == '__main__':
  check.main()
