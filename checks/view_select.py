"""C11: filtering, grouping and collapsing Views."""
import vp
from vp import st, expect
import view_model as vm

check = vp.Check(
    'C11',
    'Generated jagged arrays (depth <= 4) with generated filters / grouping'
    ' keys of compatible and incompatible shapes; select, inverse_select,'
    ' group_by and collapse are compared with a path-indexed model, plus'
    ' metamorphic laws between them. Non-trivial: the operation succeeded on a'
    ' view with at least two items.',
    ['The view extension module is compiled from /repo with a stand-in for'
     ' the arolla Python helpers (PyObjectPtr, PyTuple_AsSpan).'],
)
R = None


@check.setup
def _setup():
  global R
  R = vm.Real()


@st.composite
def select_case(draw):
  fm = draw(st.sampled_from([vm.mask, vm.mask, vm.mask, vm.mask, vm.prims]))
  leaf = st.one_of(vm.prims, vm.containers)
  return dict(
      views=draw(vm.compatible(2, [leaf, fm])),
      expand=draw(st.sampled_from([True, False, None])),
      op=draw(st.booleans()), unbox=draw(st.booleans()))


@check.clause(select_case, n=1800, thorough=60000)
def select(c):
  (v, m), (f, mf) = [R.view(x) for x in c['views']]
  if c['unbox'] and mf.depth == 0:
    f = mf.leaf[()]
  args = () if c['expand'] is None else (c['expand'],)
  real = ((lambda: R.kv.select(v, f, *args)) if c['op'] else
          (lambda: v.select(f, *args)))
  r = vm.agree('select', real, lambda: vm.select(
      m, mf, c['expand'] is not False, R.present))
  vp.label(f'expand={c["expand"]}')
  return r is not None and len(m.leaf) >= 2


@st.composite
def inverse_case(draw):
  fm = draw(st.sampled_from([vm.mask, vm.mask, vm.mask, vm.mask, vm.prims]))
  (d, fl), = draw(vm.compatible(1, fm))
  # Data of matching size, sometimes off by one.
  def data(x, depth):
    if depth == 0:
      return draw(vm.prims)
    if depth == 1:
      n = sum(1 for y in x if y is not None)
      if draw(st.integers(0, 11)) == 0:
        n = max(0, n + draw(st.sampled_from([-1, 1])))
      return tuple(draw(vm.prims) for _ in range(n))
    return tuple(data(y, depth - 1) for y in x)
  dv = (d, data(fl, d))
  if draw(st.integers(0, 9)) == 0:
    dv = draw(vm.compatible(1, vm.prims))[0]
  return dict(views=[dv, (d, fl)], op=draw(st.booleans()))


@check.clause(inverse_case, n=1500, thorough=50000)
def inverse_select(c):
  (v, m), (f, mf) = [R.view(x) for x in c['views']]
  real = ((lambda: R.kv.inverse_select(v, f)) if c['op'] else
          (lambda: v.inverse_select(f)))
  r = vm.agree('inverse_select', real,
               lambda: vm.inverse_select(m, mf, R.present))
  return r is not None and len(mf.leaf) >= 2


@check.clause(lambda: vm.compatible(2, [vm.prims, vm.mask], same_depth=True,
                                    mismatch=False), n=900, thorough=30000)
def select_roundtrip(views):
  """inverse_select(select(v, f), f) is v where f is present."""
  (v, m), (f, mf) = [R.view(x) for x in views]
  if not m.depth:
    return False
  back = v.select(f).inverse_select(f)
  want = vm.MV(m.depth, m.sizes, {
      p: (x if mf.leaf[p] is R.present else None) for p, x in m.leaf.items()})
  d = vm.diff(back, want)
  expect(d is None, f'select/inverse_select round trip: {d}')
  d = vm.diff(v & f, want)
  expect(d is None, f'& agrees with select: {d}')
  d = vm.diff(back | v, m)
  expect(d is None, f'inverse_select(...) | v restores v: {d}')
  return len(m.leaf) >= 2


@st.composite
def group_case(draw):
  nk = draw(st.integers(0, 3))
  keyleaf = draw(st.sampled_from([
      vm.ints, vm.ints,
      st.one_of(st.none(), st.sampled_from([0, 1, True, False, 1.0, 2])),
      st.one_of(st.none(), st.sampled_from(['a', 'b', ''])),
      vm.prims,
      st.one_of(st.none(), st.lists(st.integers(0, 1), max_size=2).map(tuple)),
  ]))
  leaf = draw(st.sampled_from([vm.prims, vm.containers])) if nk else keyleaf
  views = draw(vm.compatible(1 + nk, [leaf] + [keyleaf] * nk,
                             same_depth=draw(st.integers(0, 9)) > 0,
                             max_depth=3))
  return dict(views=views, sort=draw(st.booleans()), op=draw(st.booleans()))


@check.clause(group_case, n=2000, thorough=60000)
def group_by(c):
  rm = [R.view(x) for x in c['views']]
  (v, m), keys = rm[0], rm[1:]
  ks = [k for k, _ in keys]
  real = ((lambda: R.kv.group_by(v, *ks, sort=c['sort'])) if c['op'] else
          (lambda: v.group_by(*ks, sort=c['sort'])))
  r = vm.agree('group_by', real, lambda: vm.group_by(
      m, [k for _, k in keys], c['sort']))
  vp.label(f'keys={len(keys)} sort={c["sort"]}')
  return r is not None and len(m.leaf) >= 2


@st.composite
def long_rows(draw):
  """Longer rows with several keys, so that ties and orders matter."""
  nk = draw(st.integers(1, 3))
  n = draw(st.integers(2, 9))
  key = draw(st.sampled_from([st.integers(0, 2), st.sampled_from('cab'),
                              st.one_of(st.none(), st.integers(0, 2))]))
  col = lambda leaf: tuple(draw(leaf) for _ in range(n))
  views = [(1, tuple(range(n)))] + [(1, col(key)) for _ in range(nk)]
  if draw(st.booleans()):
    views = [(2, (v, v[:1])) for _, v in views]
  return dict(views=views, sort=draw(st.booleans()), op=draw(st.booleans()))


@check.clause(long_rows, n=900, thorough=30000)
def group_by_rows(c):
  return group_by(c)


@check.clause(lambda: st.tuples(
    vm.compatible(1, st.sampled_from([None, None, 1, 1, True, 2, 'a', (1,), (1.0,)])),
    st.integers(-1, 4), st.booleans()), n=1500, thorough=50000)
def collapse(case):
  (x,), ndim, op = case
  v, m = R.view(x)
  real = (lambda: R.kv.collapse(v, ndim)) if op else (lambda: v.collapse(ndim))
  r = vm.agree(f'collapse({ndim})', real, lambda: vm.collapse(m, ndim))
  if m.depth:
    d = vm.diff(v.collapse(), vm.collapse(m, 1))
    expect(d is None, f'collapse(): {d}')
  return r is not None and len(m.leaf) >= 2


if __name__ == '__main__':
  check.main()
