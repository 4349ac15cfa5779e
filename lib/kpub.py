"""DataSlices and DataBags of the driver, with their content on the Python side.

`Val` is what is known about a slice: register, schema, shape and items.
Generators make plain data; `vals`/`shape_of` turn it into values.
"""
import kcast
import kd
import vp
from vp import st, expect_eq

BY_TYPE = {
    'sINT32': ('i0', 'i1', 'i-7', 'i2147483647', 'i16777217'),
    'sINT64': ('l0', 'l1', 'l9000000000', 'l-9007199254740993'),
    'sFLOAT32': ('f3f800000', 'f7fc00000', 'f80000000', 'f7f800000'),
    'sFLOAT64': ('d3ff0000000000000', 'd3fb999999999999a'),
    'sBOOLEAN': ('b0', 'b1'),
    'sMASK': ('p',),
    'sSTRING': ('t', 'ta', 'tb', 't%c3%a9', 'tlonger_than_a_small_string_buffer'),
    'sBYTES': ('y', 'ya', 'y%00%ff'),
    'sEXPR': ('eL1', 'eL2'),
    'sSCHEMA': ('sINT32', 'sOBJECT', 'sSTRING'),
}
MIXED = tuple(t for k in BY_TYPE if k != 'sSCHEMA' for t in BY_TYPE[k][:2])


class Val:

  def __init__(self, reg, schema, shape, items):
    self.reg = reg
    self.schema = schema
    self.shape = shape
    self.items = items

  def __repr__(self):
    return (f'{self.schema} {kcast.shape_tok(self.shape)}'
            f' {kd.items(self.items)}')


def show(d, reg):
  schema, shape, items = d.call('s.show', reg).split(' ')
  return Val(reg, schema, kcast.parse_shape(shape), kd.parse_items(items))


def mk(d, schema, shape, items, bag='-'):
  """A new slice; its representation varies."""
  d.turn += 1
  style = ('', '~', '^')[d.turn % 3] if shape else ''
  return Val(d.call('s.mk', schema, kcast.shape_tok(shape),
                    style + kd.items(items), bag), schema, shape, list(items))


def check(d, reg, schema, shape, items, what):
  """The slice has this content."""
  got = show(d, reg)
  expect_eq((got.schema, kcast.shape_tok(got.shape), got.items),
            (schema, kcast.shape_tok(shape), list(items)), what)
  return got


# --- generated shapes -------------------------------------------------------
# A spec is a list of size lists that are repeated as needed.

edge_spec = st.lists(st.sampled_from((0, 1, 1, 2, 2, 3, 5)), min_size=1,
                     max_size=4)


def shape_specs(max_rank=3, min_rank=0, first=(0, 1, 2, 3, 5, 9)):
  return st.tuples(st.sampled_from(first),
                   st.lists(edge_spec, min_size=max(0, min_rank - 1),
                            max_size=max(0, max_rank - 1)),
                   st.sampled_from((False,) * 4 + (True,))
                   if min_rank == 0 else st.just(False))


def shape_of(spec):
  n, edges, scalar = spec
  if scalar:
    return ()
  shape = [(n,)]
  for e in edges:
    shape.append(tuple(e[i % len(e)] for i in range(sum(shape[-1]))))
  return tuple(shape)


def cut(shape, rank):
  """A shape that broadcasts to this one."""
  return shape[:rank % (len(shape) + 1)]


def typed_values():
  """(schema, pattern): values of one type, with missing ones; mixed; none."""
  one = st.sampled_from(tuple(k for k in BY_TYPE if k != 'sSCHEMA')).flatmap(
      lambda t: st.tuples(st.sampled_from((t, t, t, 'sOBJECT')),
                          st.lists(st.sampled_from(BY_TYPE[t] + ('_',)),
                                   min_size=1, max_size=4)))
  return st.one_of(
      one, one,
      st.tuples(st.just('sOBJECT'),
                st.lists(st.sampled_from(MIXED + ('_',)), min_size=1,
                         max_size=4)),
      st.tuples(st.sampled_from(('sNONE', 'sOBJECT', 'sINT32', 'sSTRING')),
                st.just(['_'])))


def fill(pattern, n):
  return [pattern[i % len(pattern)] for i in range(n)]
