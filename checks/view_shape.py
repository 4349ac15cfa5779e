"""C10: View dimensions: explode/implode/flatten/indexing."""
import vp
from vp import st, expect
import view_model as vm

check = vp.Check(
    'C10',
    'Generated nested data and generated sequences of shape operations'
    ' (explode, implode, flatten, indexing by scalar / view / slice, take),'
    ' compared step by step with a path-indexed model; earlier views must not'
    ' change. Non-trivial: at least one operation succeeded on a view of depth'
    ' >= 1 with at least two items.',
    ['The view extension module is compiled from /repo with a stand-in for'
     ' the arolla Python helpers (PyObjectPtr, PyTuple_AsSpan).'],
)
R = None


@check.setup
def _setup():
  global R
  R = vm.Real()


dims = st.integers(-5, 5)
step = st.one_of(
    st.tuples(st.just('explode'), st.integers(-1, 2)),
    st.tuples(st.just('colon')),
    st.tuples(st.just('implode'), st.integers(-1, 3)),
    st.tuples(st.just('flatten'), dims, st.one_of(st.none(), dims)),
    st.tuples(st.just('flatten1'), dims),
    st.tuples(st.just('flatten0')),
    st.tuples(st.just('item'), st.one_of(st.integers(-4, 4),
                                         st.sampled_from(['a', 'b', None]))),
    st.tuples(st.just('slice'), st.one_of(st.none(), st.integers(-4, 4)),
              st.one_of(st.none(), st.integers(-4, 4)), st.booleans()),
    st.tuples(st.just('take'), st.integers(-4, 4)),
)


def apply(v, m, s, op):
  """Returns (real thunk, model thunk)."""
  kv = R.kv
  k = s[0]
  if k == 'explode':
    return ((lambda: kv.explode(v, s[1])) if op else
            (lambda: v.explode(ndim=s[1]))), lambda: vm.explode(m, s[1])
  if k == 'colon':
    return ((lambda: kv.get_item(v, slice(None))) if op else
            (lambda: v[:])), lambda: vm.get_slice(m, None, None)
  if k == 'implode':
    return ((lambda: kv.implode(v, s[1])) if op else
            (lambda: v.implode(ndim=s[1]))), lambda: vm.implode(m, s[1])
  if k == 'flatten':
    return ((lambda: kv.flatten(v, s[1], s[2])) if op else
            (lambda: v.flatten(s[1], s[2]))), lambda: vm.flatten(m, s[1], s[2])
  if k == 'flatten1':
    return ((lambda: kv.flatten(v, s[1])) if op else
            (lambda: v.flatten(s[1]))), lambda: vm.flatten(m, s[1])
  if k == 'flatten0':
    return ((lambda: kv.flatten(v)) if op else
            (lambda: v.flatten())), lambda: vm.flatten(m)
  if k == 'item':
    return ((lambda: kv.get_item(v, s[1])) if op else
            (lambda: v[s[1]])), lambda: vm.get_item(m, vm.scalar(s[1]))
  if k == 'slice':
    a, b = s[1], s[2]
    if s[3] and a is not None:
      a = kv.view(a)
    return ((lambda: kv.get_item(v, slice(a, b))) if op else
            (lambda: v[a:b])), lambda: vm.get_slice(m, s[1], s[2])
  if k == 'take':
    return ((lambda: kv.take(v, s[1])) if op else
            (lambda: v.take(s[1]))), lambda: vm.take(m, vm.scalar(s[1]))
  raise AssertionError(k)


@st.composite
def program(draw):
  d, shape = draw(vm.nested_shape(4, 3))
  leaf = draw(st.sampled_from([vm.containers, vm.nested_containers, vm.prims]))
  return dict(view=(d, vm.fill(shape, d, leaf, draw)),
              steps=draw(st.lists(st.tuples(step, st.booleans()), min_size=1,
                                  max_size=6)))


def snapshot(x, d):
  """Identity structure of nested tuples."""
  if d and type(x) is tuple:
    return tuple(snapshot(c, d - 1) for c in x)
  return id(x)


@check.clause(program, n=4000, thorough=150000)
def programs(c):
  v, m = R.view(c['view'])
  hist = [(v, m)]
  nontrivial = False
  for s, op in c['steps']:
    real, model = apply(v, m, s, op)
    vp.label(s[0])
    r = vm.agree(f'{s} on depth {m.depth}: {m.nested()!r}', real, model)
    if r is None:
      continue
    v, m = r
    hist.append((v, m))
    if m.depth >= 1 and len(m.leaf) >= 2:
      nontrivial = True
  for v, m in hist:
    d = vm.diff(v, m)
    expect(d is None, f'an earlier view changed: {d}')
  return nontrivial


@st.composite
def index_case(draw):
  keys = st.one_of(st.none(), st.integers(-3, 3), st.sampled_from(['a', 'b']))
  cont = draw(st.sampled_from([
      st.one_of(st.none(), st.lists(vm.prims, max_size=4)),
      st.one_of(st.none(), st.lists(vm.prims, max_size=4).map(tuple)),
      vm.containers]))
  ik = draw(st.sampled_from([st.one_of(st.none(), st.integers(-4, 4)), keys]))
  return dict(views=draw(vm.compatible(2, [cont, ik])), op=draw(st.booleans()),
              take=draw(st.booleans()))


@check.clause(index_case, n=2500, thorough=80000)
def index_by_view(c):
  """x[keys] aligns the containers and the keys."""
  (v, m), (k, mk) = [R.view(x) for x in c['views']]
  if c['take']:
    real = (lambda: R.kv.take(v, k)) if c['op'] else (lambda: v.take(k))
    r = vm.agree('take', real, lambda: vm.take(m, mk))
  else:
    real = (lambda: R.kv.get_item(v, k)) if c['op'] else (lambda: v[k])
    r = vm.agree('get_item', real, lambda: vm.get_item(m, mk))
  return r is not None and r[1].depth >= 1 and len(r[1].leaf) >= 2


@check.clause(program, n=300, thorough=10000)
def laws(c):
  """implode undoes explode; flatten keeps the items and their order."""
  v, m = R.view(c['view'])
  for n in range(m.depth + 1):
    w = v.implode(n).explode(n)
    d = vm.diff(w, m)
    expect(d is None, f'implode({n}).explode({n}): {d}')
  flat = v.flatten()
  expect(flat.get_depth() == 1, 'flatten() depth')
  got = flat.get()
  want = m.leaves()
  expect(len(got) == len(want) and all(
      vm.same_leaf(a, b) for a, b in zip(got, want)), 'flatten() items',
         got=got, want=want)
  for bad in (lambda: R.kv.view(v), lambda: list(v), lambda: v[::2],
              lambda: v[0:1:1]):
    try:
      r = bad()
    except (TypeError, ValueError):
      continue
    raise vp.Violation(f'expected an error, got {r!r}')
  return m.depth >= 1 and len(m.leaf) >= 2


if __name__ == '__main__':
  check.main()
