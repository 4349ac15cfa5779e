"""C24: jagged shapes: broadcasting, reshaping and slicing."""
import kcast
import kd
import kjag
import kpub
import vp
from kcast import Bad
from vp import expect, expect_eq, st

check = vp.Check(
    'C24',
    'Slices with generated jagged shapes (empty groups, uniform and ragged'
    ' dimensions, up to four dimensions) through alignment, broadcasting,'
    ' flattening, reshaping, shape construction with sizes and a placeholder,'
    ' slicing by items, ranges and ellipsis, and expansion; compared with'
    ' nested Python lists. Non-trivial: at least two dimensions and a'
    ' non-empty result.',
    ['arolla is replaced by the stand-in in shims/kcore.'])


@check.setup
def _setup():
  kd.build('shapes', ['kcore_public.cc', 'kcore_ops.cc'],
           groups=('internal', 'public', 'operators'))


def slices(max_rank=3, min_rank=0):
  return st.tuples(kpub.typed_values(), st.one_of(
      kpub.shape_specs(max_rank, min_rank, first=(1, 2, 3, 4, 0)),
      kpub.shape_specs(max_rank, 2, first=(2, 3, 1))))


def ints(n_max=3):
  """A slice of indices: values, how its shape relates, its schema."""
  return st.tuples(
      st.lists(st.one_of(st.integers(-n_max, n_max), st.integers(-1, 1), st.none()), min_size=1,
               max_size=4),
      st.integers(0, 5), st.sampled_from(('sINT32', 'sINT64', 'sOBJECT')),
      st.sampled_from((False, False, False, True)))


def make(d, spec):
  (schema, pattern), sh = spec
  shape = kpub.shape_of(sh)
  return kpub.mk(d, schema, shape, kpub.fill(pattern, kcast.size(shape)))


def other_shape(shape, k, change):
  """A shape related to the given one; equal to a prefix unless changed."""
  out = kpub.cut(shape, k)
  if change == 1:
    out = out + ((2,) * kcast.size(out),)
  elif change == 2 and out and out[-1]:
    out = out[:-1] + ((out[-1][0] + 1,) + out[-1][1:],)
  elif change == 3 and out and len(out[-1]) > 1:
    out = out[:-1] + (out[-1][::-1],)
  return out


def outcome(fn, *args):
  try:
    return fn(*args)
  except Bad:
    return None


@check.clause(st.tuples(slices(4), st.lists(
    st.tuples(st.integers(0, 5), st.sampled_from((0, 0, 0, 1, 2, 3)),
              kpub.typed_values()), min_size=1, max_size=3)),
              n=900, thorough=20000, budget_s=20)
def align(case):
  base, rest = case
  d = kd.driver()
  vals = [make(d, base)]
  for k, change, (schema, pattern) in rest:
    s = other_shape(vals[0].shape, k, change)
    vals.append(kpub.mk(d, schema, s, kpub.fill(pattern, kcast.size(s))))
  regs = [v.reg for v in vals]
  want = outcome(kjag.common_shape, [v.shape for v in vals])
  a, b = vals[0], vals[-1]
  for x, y in ((a, b), (b, a)):
    fits = x.shape == y.shape[:len(x.shape)]
    expect_eq(d.call('s.bcastable', kcast.shape_tok(x.shape),
                     kcast.shape_tok(y.shape)), str(int(fits)), 'fits')
    if fits:
      kpub.check(d, d.call('s.bcast', x.reg, kcast.shape_tok(y.shape)),
                 x.schema, y.shape,
                 kcast.broadcast(x.items, x.shape, y.shape), f'{x} to {y}')
    else:
      expect(d.fails('s.bcast', x.reg, kcast.shape_tok(y.shape)),
             f'{x} to {y}')
  if want is None:
    for c in (('s.align',), ('s.alignns',), ('s.commonshape',),
              ('op', 'kd.slices.align')):
      expect(d.fails(*c, *regs), f'{c} of {vals}')
    vp.label('no common shape')
    return False
  expect_eq(d.call('s.commonshape', *regs), kcast.shape_tok(want), 'shape')
  for c in (('s.align',), ('op', 'kd.slices.align')):
    for v, r in zip(vals, tokens(d.call(*c, *regs))):
      kpub.check(d, r, v.schema, want,
                 kcast.broadcast(v.items, v.shape, want), f'{c} of {vals}')
  shape, *out = d.call('s.alignns', *regs).split()
  expect_eq(shape, kcast.shape_tok(want), 'shape')
  for v, r in zip(vals, out):
    to = want if v.shape else ()
    kpub.check(d, r, v.schema, to, kcast.broadcast(v.items, v.shape, to),
               f'non-scalars of {vals}')
  vp.label(f'rank {len(want)}')
  return len(want) > 1 and kcast.size(want) > 0


def tokens(s):
  return [t for t in s.split() if t[0] == '$']


@check.clause(st.tuples(slices(4), st.integers(-5, 5),
                        st.one_of(st.none(), st.integers(-5, 5)),
                        kpub.shape_specs(4), st.integers(0, 9)),
              n=900, thorough=20000, budget_s=15)
def reshape(case):
  spec, start, stop, other, seed = case
  d = kd.driver()
  v = make(d, spec)
  f = kjag.flatten(v.shape, start, stop)
  got = d.call('s.flatten', v.reg, start, '-' if stop is None else stop)
  kpub.check(d, got, v.schema, f, v.items, f'flatten {v} {start}:{stop}')
  back = d.call('s.reshape', got, kcast.shape_tok(v.shape))
  kpub.check(d, back, v.schema, v.shape, v.items, 'and back')
  # Any other shape of the same size, and none of another size.
  o = kpub.shape_of(other)
  if kcast.size(o) == len(v.items):
    shape = o
  else:
    expect(d.fails('s.reshape', v.reg, kcast.shape_tok(o)),
           f'{v} as {kcast.shape_tok(o)}')
    expect(d.fails('op', 'kd.shapes._reshape', v.reg,
                   'S:' + kcast.shape_tok(o)), f'{v} as {o}')
    cut = seed % (len(v.items) + 1)
    shape = ((2,), (cut, len(v.items) - cut))
  for c in (('s.reshape', v.reg, kcast.shape_tok(shape)),
            ('op', 'kd.shapes._reshape', v.reg, 'S:' + kcast.shape_tok(shape))):
    kpub.check(d, d.call(*c), v.schema, shape, v.items, f'{c[:2]} {v}')
  expect_eq(d.call('op', 'kd.shapes.get_shape', v.reg),
            'S:' + kcast.shape_tok(v.shape), 'get_shape')
  kpub.check(d, d.call('op', 'kd.slices.empty_shaped', 'S:' +
                       kcast.shape_tok(shape),
                       kpub.mk(d, 'sSCHEMA', (), ['sINT32']).reg),
             'sINT32', shape, ['_'] * len(v.items), 'empty_shaped')
  return len(v.shape) > 1 and bool(v.items)


def dims():
  return st.lists(st.one_of(st.integers(-1, 3), st.sampled_from((1, 2, 2)),
                            st.just('sizes'), st.just('wrong')),
                  max_size=4)


@check.clause(st.tuples(dims(), st.lists(st.integers(0, 3), min_size=1,
                                         max_size=5),
                        st.sampled_from(('sINT32', 'sINT64', 'sOBJECT')),
                        st.integers(-1, 1), st.integers(0, 3)),
              n=1200, thorough=30000, budget_s=15)
def construct(case):
  spec, pattern, schema, off, hole = case
  d = kd.driver()
  full, n = [], 1
  for x in spec:
    if isinstance(x, int):
      full.append(x)
      n *= max(x, 1)
    else:
      k = n if x == 'sizes' else n + 1
      full.append(tuple(pattern[i % len(pattern)] for i in range(k)))
      n = sum(full[-1])
    if n > 300:
      return False
  regs = [kpub.mk(d, schema, () if isinstance(x, int) else ((len(x),),),
                  ['_lid'[{'sINT64': 1}.get(schema, 2)] + str(v) for v in
                   ([x] if isinstance(x, int) else x)]).reg for x in full]
  want = outcome(kjag.new_shape, full)
  tup = ' '.join(['(', *regs, ')'])
  what = f'shape of {full}'
  if want is None:
    expect(d.fails('op', 'kd.shapes.new', tup), what)
  else:
    expect_eq(d.call('op', 'kd.shapes.new', tup),
              'S:' + kcast.shape_tok(want), what)
  # One dimension left open.
  if want is not None and want:
    total = kcast.size(want) + (off if hole == 3 else 0)
    i = hole % len(full)
    open_ = list(full)
    open_[i] = -1
  else:
    total, open_, i = max(0, hole + off), list(full), None
  exp = outcome(kjag.new_with_size, total, open_)
  oregs = list(regs)
  if i is not None:
    oregs[i] = kpub.mk(d, schema, (), [('l' if schema == 'sINT64' else 'i')
                                       + '-1']).reg
  size = kpub.mk(d, 'sINT64', (), [f'l{total}']).reg
  what = f'shape of {open_} for {total} items'
  call = ('op', 'kd.shapes._new_with_size', size, *oregs)
  if exp is None:
    expect(d.fails(*call), what)
  else:
    expect_eq(d.call(*call), 'S:' + kcast.shape_tok(exp), what)
  vp.label('built' if want is not None else 'rejected')
  return want is not None and len(want) > 1


# --- slicing ----------------------------------------------------------------


def index_slice(d, x, shape, depth):
  """A slice of indices for the given dimension."""
  vals, k, schema, extra = x
  base = kpub.cut(shape[:depth], k) if k < 4 else ()
  if extra:
    base = base + (tuple(1 + i % 2 for i in range(kcast.size(base))),)
  n = kcast.size(base)
  v = [vals[i % len(vals)] for i in range(n)]
  p = 'l' if schema == 'sINT64' else 'i'
  return kpub.mk(d, schema, base,
                 ['_' if i is None else f'{p}{i}' for i in v]).reg, (v, base)


one_arg = st.one_of(
    st.tuples(st.just('at'), ints()),
    st.tuples(st.just('range'), st.one_of(st.none(), ints()),
              st.one_of(st.none(), ints())),
    st.tuples(st.just('range'), st.none(), st.one_of(st.none(), ints(9))))


@check.clause(st.tuples(slices(4, min_rank=1), st.lists(one_arg, min_size=1, max_size=3),
                        st.one_of(st.none(), st.integers(0, 4))),
              n=3000, thorough=60000, budget_s=25)
def subslice(case):
  spec, raw, dots = case
  d = kd.driver()
  v = make(d, spec)
  model, toks, ops = [], [], []
  rank = len(v.shape)
  for i, a in enumerate(raw):
    depth = max(0, rank - len(raw) + i)
    if a[0] == 'at':
      r, m = index_slice(d, a[1], v.shape, depth)
      model.append(m)
      toks.append(r)
      ops.append(r)
    else:
      lims = [None if x is None else index_slice(d, x, v.shape, depth)
              for x in a[1:]]
      model.append(('range',) + tuple(x and x[1] for x in lims))
      toks.append(':'.join(x[0] if x else '' for x in lims))
      ops.append('[ ' + ' '.join(x[0] if x else 'u' for x in lims) + ' u ]')
  want = outcome(kjag.subslice, v.items, v.shape, model)
  if want is not None and (len(want[0]) > 3000):
    return False
  what = f'{v} [{model}]'
  calls = [('s.subslice', v.reg, *toks), ('op', 'kd.slices.subslice', v.reg,
                                          *ops)]
  for c in calls:
    if want is None:
      expect(d.fails(*c), f'{c[0]}: {what}')
    else:
      kpub.check(d, d.call(*c), v.schema, want[1], want[0], f'{c[0]}: {what}')
  if dots is not None and len(raw) <= rank:
    k = dots % (len(raw) + 1)
    fill = [('range', None, None)] * (rank - len(raw))
    m = model[:k] + fill + model[k:]
    w = outcome(kjag.subslice, v.items, v.shape, m)
    call = ('op', 'kd.slices.subslice', v.reg, *ops[:k], '...', *ops[k:])
    if k == 0:
      w = want
    if w is None:
      expect(d.fails(*call), f'... at {k}: {what}')
    elif len(w[0]) < 3000:
      kpub.check(d, d.call(*call), v.schema, w[1], w[0],
                 f'... at {k}: {what}')
  # Taking items.
  if raw and raw[-1][0] == 'at' and len(raw) == 1:
    m = model[0]
    head = v.shape[:-1]
    fits = head == m[1][:len(head)] or m[1] == head[:len(m[1])]
    if fits:
      kpub.check(d, d.call('op', 'kd.slices.take', v.reg, toks[0]), v.schema,
                 want[1], want[0], f'take {what}')
    else:
      expect(d.fails('op', 'kd.slices.take', v.reg, toks[0]), f'take {what}')
  kpub.check(d, v.reg, v.schema, v.shape, v.items, 'the slice')
  vp.label('rejected' if want is None else f'{len(model)} arguments')
  return bool(want) and rank > 1 and bool(model) and any(
      t != '_' for t in want[0])


@check.clause(st.tuples(slices(4), st.integers(0, 5),
                        st.sampled_from((0, 0, 0, 1, 2, 3)),
                        st.integers(-1, 3), kpub.typed_values()),
              n=1000, thorough=25000, budget_s=15)
def expand(case):
  spec, k, change, ndim, (schema, pattern) = case
  d = kd.driver()
  v = make(d, spec)
  keep = v.shape[:max(0, len(v.shape) - max(ndim, 0))]
  to = other_shape(keep + ((2,) * kcast.size(keep), ), 0 if k == 5 else
                   len(keep) + k % 2, change)
  t = kpub.mk(d, schema, to, kpub.fill(pattern, kcast.size(to)))
  what = f'{v} with {ndim} dimensions imploded, to'
  want = outcome(kjag.expand, v.items, v.shape, to, ndim)
  call = ('op', 'kd.shapes._expand_to_shape', v.reg,
          'S:' + kcast.shape_tok(to), f'n:{ndim}')
  if want is None:
    expect(d.fails(*call), f'{what} {to}')
  else:
    kpub.check(d, d.call(*call), v.schema, want[1], want[0], f'{what} {to}')
  want = outcome(kjag.expand, v.items, v.shape, to, ndim,
                 [x != '_' for x in t.items])
  call = ('op', 'kd.slices.expand_to_present', v.reg, t.reg,
          kpub.mk(d, 'sINT64', (), [f'l{ndim}']).reg)
  if want is None:
    expect(d.fails(*call), f'{what} the present of {t}')
  else:
    kpub.check(d, d.call(*call), v.schema, want[1], want[0],
               f'{what} the present of {t}')
  vp.label('rejected' if want is None else f'{ndim} dimensions')
  return want is not None and len(want[1]) > 1 and bool(want[0])


if __name__ == '__main__':
  check.main()
