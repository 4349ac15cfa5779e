"""C15: selecting parts of JSON streams."""
import json

import vp
from vp import st, expect, expect_eq
import jsonlib as J
import jsonstream

check = vp.Check(
    'C15',
    'Generated sequences of JSON values in random layouts and byte chunkings,'
    ' with random path predicates, keys and indices; the expected output is'
    ' computed from the generating trees. Non-trivial: the input has at least'
    ' one container and the operation keeps something and drops something.',
    ['json_stream.cc is compiled from /repo against the distribution\'s absl'
     ' and ICU, with a stand-in for absl/log/check.h (DCHECK off); the operator'
     ' glue in koladata/operators/json_stream.cc is re-enacted (it needs arolla).'],
)


@check.setup
def _setup():
  jsonstream.build()


keys = st.one_of(st.sampled_from(
    ['"a"', '"b"', '"c"', '""', '"\\u0061"', '"a\\"b"', '"0"', '"é"', '"{"']),
    J.strings)
small = st.one_of(
    st.sampled_from([('lit', 'null'), ('lit', 'true'), ('num', '1'),
                     ('num', '-2.5e3'), ('str', '"x"'), ('str', '"null"'),
                     ('str', '"]"'), ('str', '"a\\"}"'), ('arr', ()),
                     ('obj', ())]),
    J.leaves)


def trees(keys=keys, max_leaves=10):
  return st.recursive(
      small,
      lambda c: st.one_of(
          st.lists(c, max_size=4).map(lambda x: ('arr', tuple(x))),
          st.lists(st.tuples(keys, c), max_size=4).map(
              lambda x: ('obj', tuple(x)))),
      max_leaves=max_leaves)


streams = st.tuples(st.lists(trees(), max_size=5), J.ws_lists, J.sep_lists,
                    st.booleans(), J.cuts)


few_keys = st.sampled_from(['"a"', '"b"', '"\\u0061"', '""', '"a\\"b"', '"0"',
                            '"é"', '"{"'])
obj_streams = st.tuples(st.lists(st.one_of(
    st.lists(st.tuples(few_keys, trees(few_keys, 4)), max_size=4).map(
        lambda x: ('obj', tuple(x))), trees(few_keys, 4)), max_size=4),
                        J.ws_lists, J.sep_lists, st.booleans(), J.cuts)
arr_streams = st.tuples(st.lists(st.one_of(
    st.lists(trees(few_keys, 4), max_size=4).map(lambda x: ('arr', tuple(x))),
    trees(few_keys, 4)), max_size=4),
                        J.ws_lists, J.sep_lists, st.booleans(), J.cuts)


def render(case):
  vals, ws, seps, tail, _ = case
  it, si = J.ws_iter(ws), J.ws_iter(seps)
  text = next(it)
  for i, v in enumerate(vals):
    text += J.spaced(v, it)
    if i < len(vals) - 1 or tail:
      text += next(si)
  return vals, text


def both(stages, text, cuts):
  """Output for the generated chunking, equal to that for single bytes."""
  data = text.encode()
  a = jsonstream.pipe(stages, J.split(data, cuts))[0]
  b = jsonstream.pipe(stages, [data[i:i + 1] for i in range(len(data))])[0]
  expect(a == b, 'the output depends on the chunking', text=text, a=a, b=b)
  return a.decode()


def lines(vals):
  return ''.join(J.compact(v) + '\n' for v in vals)


@check.clause(streams, n=3000, thorough=150000, native=True)
def selectors(case):
  vals, text = render(case)
  weight = 0
  for kind, keep in (
      ('select_nonempty_objects', lambda v: v[0] == 'obj' and bool(v[1])),
      ('select_nonempty_arrays', lambda v: v[0] == 'arr' and bool(v[1])),
      ('select_nonnull', lambda v: v != ('lit', 'null'))):
    want = [v for v in vals if keep(v)]
    expect_eq(both([jsonstream.COMPACT, (kind, {})], text, case[4]),
              lines(want), kind)
    weight += 0 < len(want) < len(vals)
  return weight >= 1


@check.clause(streams, n=2500, thorough=150000, native=True)
def implode_explode(case):
  vals, text = render(case)
  one = both([jsonstream.COMPACT, ('implode_array', {})], text, case[4])
  expect_eq(one, J.compact(('arr', tuple(vals))) + '\n')
  expect_eq(both([('explode_array', {})], one, case[4]), lines(vals))
  got = both([('explode_array', {})], text, case[4])
  expect_eq(got, lines([x for v in vals if v[0] == 'arr' for x in v[1]]), text)
  return len(vals) > 1 and any(v[0] in ('arr', 'obj') for v in vals)


@check.clause(st.tuples(st.one_of(streams, arr_streams), st.integers(-2, 5)), n=3000, thorough=150000,
              native=True)
def nth_value(case):
  s, n = case
  vals, text = render(s)
  want = [v[1][n] if v[0] == 'arr' and 0 <= n < len(v[1]) else ('lit', 'null')
          for v in vals]
  got = both([('get_array_nth_value', dict(n=n))], text, s[4])
  expect_eq(got, lines(want), text)
  return len(vals) > 1 and len(set(want)) > 1


def walk(node, match, path=()):
  """(path, value) of the outermost matching paths, in document order."""
  if match(path):
    return [(path, node)]
  k, v = node
  out = []
  if k == 'arr':
    for i, x in enumerate(v):
      out += walk(x, match, path + (i,))
  elif k == 'obj':
    for a, x in v:
      out += walk(x, match, path + (''.join(map(chr, J.decode(a))),))
  return out


@st.composite
def predicates(draw):
  """A description of a set of paths (replayable data)."""
  kind = draw(st.sampled_from(['depth', 'last', 'contains', 'hash', 'none',
                               'all', 'last']))
  if kind == 'depth':
    return [kind, draw(st.integers(0, 4))]
  if kind in ('last', 'contains'):
    return [kind, draw(st.one_of(st.integers(0, 3), st.sampled_from(
        ['a', 'b', 'c', '', 'a"b', '0', 'é', 'ab'])))]
  if kind == 'hash':
    return [kind, draw(st.integers(2, 4)), draw(st.integers(0, 10**6))]
  return [kind]


def matcher(p):
  kind = p[0]
  if kind == 'depth':
    return lambda path: len(path) == p[1]
  if kind == 'last':
    return lambda path: bool(path) and type(path[-1]) is type(p[1]) and (
        path[-1] == p[1])
  if kind == 'contains':
    return lambda path: any(type(x) is type(p[1]) and x == p[1] for x in path)
  if kind == 'hash':
    import zlib
    return lambda path: zlib.crc32(
        json.dumps([p[2], path]).encode()) % p[1] == 0
  return lambda path: kind == 'all'


@check.clause(st.tuples(streams, predicates()), n=4000, thorough=200000,
              native=True)
def extract_values(case):
  s, p = case
  vals, text = render(s)
  match = matcher(p)
  found = [walk(v, match) for v in vals]
  want = lines([('arr', tuple(x for _, x in f)) for f in found])
  seen = []

  def spy(path):
    seen.append(path)
    return match(path)

  got = both([jsonstream.COMPACT, ('extract_values', dict(match=spy))],
             text, s[4])
  expect_eq(got, want, text)
  # Predicates are asked only about paths which exist in the values.
  all_paths = set()

  def collect(node, path):
    all_paths.add(path)
    k, v = node
    if k == 'arr':
      for i, x in enumerate(v):
        collect(x, path + (i,))
    elif k == 'obj':
      for a, x in v:
        collect(x, path + (''.join(map(chr, J.decode(a))),))

  for v in vals:
    collect(v, ())
  expect(set(seen) <= all_paths, 'asked about a path that does not exist',
         extra=set(seen) - all_paths)
  got = both([jsonstream.COMPACT,
              ('extract_values', dict(match=match, flags=1))], text, s[4])
  parsed = [J.parse(x) for x in got.removesuffix('\n').split('\n')] if got else []
  expect_eq([J.canon(x) for x in parsed],
            [('arr', tuple(('arr', (
                ('arr', tuple(
                    ('num', J.number(str(e))) if isinstance(e, int)
                    else ('str', tuple(map(ord, e))) for e in path)),
                J.canon(x))) for path, x in f)) for f in found], text)
  return 0 < sum(map(len, found)) and any(
      v[0] in ('arr', 'obj') and v[1] for v in vals)


@check.clause(st.tuples(obj_streams, st.sampled_from(
    ['a', 'b', 'c', '', 'a"b', '0', 'é', '{'])), n=2500, thorough=120000,
              native=True)
def object_key(case):
  """get_object_key_value(s): first (all) values of a key of each object."""
  s, key = case
  vals, text = render(s)
  found = [[x for a, x in v[1]
            if ''.join(map(chr, J.decode(a))) == key] if v[0] == 'obj' else []
           for v in vals]
  ex = ('extract_values', dict(match=lambda p: p == (key,)))
  expect_eq(both([jsonstream.COMPACT, ex], text, s[4]),
            lines([('arr', tuple(f)) for f in found]), text)
  expect_eq(both([jsonstream.COMPACT, ex, ('get_array_nth_value', dict(n=0))],
                 text, s[4]),
            lines([f[0] if f else ('lit', 'null') for f in found]), text)
  return any(found)


if __name__ == '__main__':
  check.main()
