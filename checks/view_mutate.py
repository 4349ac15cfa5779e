"""C12: mutation through views, attribute access, deep copies and deep maps."""
import copy

import vp
from vp import st, expect
import view_model as vm

check = vp.Check(
    'C12',
    'Generated object graphs (objects, lists, dicts with shared references)'
    ' and histories of set_attrs / set_item / append / get_attr through views'
    ' of compatible shapes, run on the real code and, as plain per-item Python'
    ' statements in row-major order, on an identical second graph; the final'
    ' graphs must be isomorphic including sharing. Non-trivial: at least two'
    ' items were written.',
    ['The view extension module is compiled from /repo with a stand-in for'
     ' the arolla Python helpers (PyObjectPtr, PyTuple_AsSpan).'],
)
R = None


@check.setup
def _setup():
  global R
  R = vm.Real()


# -- object pools -----------------------------------------------------------

NOBJ = 5
POOL_KINDS = ['ob', 'list', 'dict']


def build_pool(kind, specs):
  out = []
  for s in specs:
    if kind == 'ob':
      out.append(vm.Ob(**{k: vm.subst(v, R.present) for k, v in s.items()}))
    elif kind == 'list':
      out.append([vm.subst(v, R.present) for v in s.values()])
    else:
      out.append({k: vm.subst(v, R.present) for k, v in s.items()})
  return out


spec = st.dictionaries(st.sampled_from(['a', 'b', 'c']), vm.prims, max_size=3)


def resolve(nested, depth, pool):
  if depth == 0:
    return None if nested is None else pool[nested]
  return tuple(resolve(c, depth - 1, pool) for c in nested)


@st.composite
def history(draw):
  kind = draw(st.sampled_from(POOL_KINDS))
  specs = draw(st.lists(spec, min_size=2, max_size=NOBJ))
  ref = st.one_of(st.none(), st.integers(0, len(specs) - 1),
                  st.integers(0, len(specs) - 1),
                  st.integers(0, len(specs) - 1))
  ops = []
  for _ in range(draw(st.integers(1, 4))):
    if kind == 'ob':
      n = draw(st.integers(1, 2))
      views = draw(vm.compatible(1 + n, [ref] + [vm.prims] * n))
      names = draw(st.permutations(['a', 'b', 'n', '_p']))[:n]
      ops.append(('set_attrs', views, names))
    elif kind == 'list':
      if draw(st.booleans()):
        ops.append(('append', draw(vm.compatible(2, [ref, vm.prims])), None))
      else:
        keys = draw(st.sampled_from(
            [st.one_of(st.none(), st.integers(-4, 4)), vm.ints, vm.prims]))
        ops.append(('set_item',
                    draw(vm.compatible(3, [ref, keys, vm.prims])), None))
    else:
      keys = st.one_of(st.none(), st.sampled_from(['a', 'b', 'z', 0, 1]))
      ops.append(('set_item', draw(vm.compatible(3, [ref, keys, vm.prims])),
                  None))
  return dict(kind=kind, specs=specs, ops=[o + (draw(st.integers(0, 2)),)
                                           for o in ops])


def dump(pool):
  return [dict(x.__dict__) if isinstance(x, vm.Ob) else copy.copy(x)
          for x in pool]


def cmp_dump(a, b):
  if len(a) != len(b):
    return False
  for x, y in zip(a, b):
    if isinstance(x, dict):
      if list(x) != list(y) or not all(vm.same_leaf(x[k], y[k]) for k in x):
        return False
    elif not vm.same_leaf(x, y):
      return False
  return True


@check.clause(history, n=2000, thorough=80000)
def mutate(c):
  pa, pb = build_pool(c['kind'], c['specs']), build_pool(c['kind'], c['specs'])
  writes = 0
  for name, views, extra, spelling in c['ops']:
    (d0, n0), rest = views[0], views[1:]
    a0 = resolve(n0, d0, pa)
    v0 = R.kv.view(a0)
    for _ in range(d0):
      v0 = v0[:]
    m0 = vm.from_nested(resolve(n0, d0, pb), d0)
    rr = [R.view(x) for x in rest]
    reals = [r for r, _ in rr]
    models = [m for _, m in rr]
    if spelling == 2:
      reals = [m.leaf[()] if m.depth == 0 else r
               for r, m in zip(reals, models)]

    if name == 'set_attrs':
      kw = dict(zip(extra, reals))

      def real():
        if spelling == 0 and len(kw) == 1 and not extra[0].startswith('_'):
          setattr(v0, extra[0], reals[0])
        elif spelling == 1:
          R.kv.set_attrs(v0, **kw)
        else:
          v0.set_attrs(**kw)

      def model():
        n = 0
        for k, m in zip(extra, models):
          if m.depth > m0.depth:
            raise vm.Fail('depth')
          vm.common_shape(m0, m)
          for p in m0.paths():
            if m0.leaf[p] is not None:
              setattr(m0.leaf[p], k, m.leaf[p[:m.depth]])
              n += 1
        return n
    elif name == 'append':
      def real():
        if spelling == 1:
          R.kv.append(v0, reals[0])
        else:
          v0.append(reals[0])

      def model():
        n = 0
        m = models[0]
        ref = vm.common_shape(m0, m)
        for p in ref.paths():
          x = m0.leaf[p[:m0.depth]]
          if x is not None:
            x.append(m.leaf[p[:m.depth]])
            n += 1
        return n
    else:
      def real():
        if spelling == 1:
          R.kv.set_item(v0, *reals)
        elif spelling == 0:
          v0[reals[0]] = reals[1]
        else:
          v0.set_item(*reals)

      def model():
        n = 0
        mk, mv = models
        if mv.depth > m0.depth and mv.depth > mk.depth:
          raise vm.Fail('depth')
        ref = vm.common_shape(m0, mk, mv)
        for p in ref.paths():
          x, k, y = (w.leaf[p[:w.depth]] for w in (m0, mk, mv))
          if x is None or k is None:
            continue
          try:
            x[k] = y
            n += 1
          except IndexError:
            pass
        return n

    r = vm.agree(name, real, model)
    vp.label(name)
    if r is None:
      # Both failed, possibly half way.
      return False
    writes += r[1]
    expect(cmp_dump(dump(pa), dump(pb)), f'{name}: objects differ',
           got=dump(pa), want=dump(pb))
  return writes >= 2


@st.composite
def attr_case(draw):
  leaf = st.one_of(st.none(), spec, spec)
  (d, n), = draw(vm.compatible(1, leaf, mismatch=False))
  return dict(d=d, n=n, attr=draw(st.sampled_from(['a', 'b', 'zz'])),
              default=draw(st.one_of(st.none(), st.just('NO'), vm.prims)),
              how=draw(st.integers(0, 3)))


def to_obs(n, d):
  if d == 0:
    return None if n is None else vm.Ob(**{
        k: vm.subst(v, R.present) for k, v in n.items()})
  return tuple(to_obs(c, d - 1) for c in n)


@check.clause(attr_case, n=900, thorough=30000)
def get_attr(c):
  nested = to_obs(c['n'], c['d'])
  v = R.kv.view(nested).explode(c['d'])
  m = vm.from_nested(nested, c['d'])
  a = c['attr']
  if c['default'] == 'NO' or c['how'] == 0:
    real = {0: lambda: getattr(v, a), 1: lambda: v.get_attr(a),
            2: lambda: R.kv.get_attr(v, a),
            3: lambda: R.kv.get_attr(v, a)}[c['how']]
    model = lambda: vm.map_n(lambda x: getattr(x, a), [m])
  else:
    df = vm.subst(c['default'], R.present)
    rdf = R.kv.view(df) if c['how'] == 3 else df
    real = {1: lambda: v.get_attr(a, rdf),
            2: lambda: R.kv.get_attr(v, a, rdf),
            3: lambda: v.get_attr(a, default=rdf)}[c['how']]

    def g(x):
      r = getattr(x, a, None)
      return df if r is None else r
    model = lambda: vm.map_n(g, [m])
  r = vm.agree('get_attr', real, model)
  return r is not None and len(m.leaf) >= 2


@check.clause(lambda: vm.compatible(1, vm.nested_containers), n=500,
              thorough=15000)
def deep_clone(views):
  """Equal structure, no shared mutable parts, sharing inside is kept."""
  v, m = R.view(views[0])
  shared = [1]
  obj = (v.get(), shared, shared, {'k': shared})
  w = R.kv.view(obj).deep_clone()
  x = w.get()
  expect(w.get_depth() == 0 and x[1] == [1] and x[1] is x[2]
         and x[3]['k'] is x[1] and x[1] is not shared, 'deep_clone sharing',
         got=x)
  c = R.kv.deep_clone(v)
  expect(c.get_depth() == v.get_depth(), 'deep_clone depth')

  def walk(a, b):
    expect(type(a) is type(b), 'deep_clone type', a=a, b=b)
    if isinstance(a, (list, tuple)):
      expect(len(a) == len(b), 'deep_clone length', a=a, b=b)
      if isinstance(a, list):
        expect(a is not b, 'deep_clone shares a list')
      for p, q in zip(a, b):
        walk(p, q)
    elif isinstance(a, dict):
      expect(a is not b and list(a) == list(b), 'deep_clone dict', a=a, b=b)
      for k in a:
        walk(a[k], b[k])
    elif a is not R.present and type(a) is not type(R.present):
      expect(a == b, 'deep_clone leaf', a=a, b=b)
  walk(v.get(), c.get())
  return len(m.leaf) >= 2


def tree_map(f, xs, include_missing):
  x = xs[0]
  if isinstance(x, (list, tuple)):
    return type(x)([tree_map(f, [y[i] for y in xs], include_missing)
                    for i in range(len(x))])
  if isinstance(x, dict):
    return {k: tree_map(f, [y[k] for y in xs], include_missing) for k in x}
  if not include_missing and any(y is None for y in xs):
    return None
  return f(*xs)


def relabel(x, draw):
  """Same structure, other leaves."""
  if isinstance(x, (list, tuple)):
    return type(x)([relabel(c, draw) for c in x])
  if isinstance(x, dict):
    return {k: relabel(c, draw) for k, c in x.items()}
  return draw(vm.prims)


@st.composite
def deep_case(draw):
  (d, n), = draw(vm.compatible(1, vm.nested_containers, max_depth=3,
                               mismatch=False))
  k = draw(st.integers(1, 3))
  return dict(depth=d, trees=[n] + [relabel(n, draw) for _ in range(k - 1)],
              include=draw(st.booleans()), method=draw(st.booleans()))


@check.clause(deep_case, n=900, thorough=30000)
def deep_map(c):
  trees = [vm.subst(t, R.present) for t in c['trees']]
  vs = [R.kv.view(t).explode(c['depth']) for t in trees]
  calls = []

  def f(*xs):
    calls.append(xs)
    return ('leaf', xs)

  if len(vs) == 1 and c['method']:
    got = vs[0].deep_map(f, include_missing=c['include'])
  else:
    got = R.kv.deep_map(f, *vs, include_missing=c['include'])
  want = tree_map(lambda *xs: ('leaf', xs), trees, c['include'])
  expect(got.get_depth() == c['depth'], 'deep_map depth')
  expect(repr(got.get()) == repr(want), 'deep_map', got=got.get(), want=want)
  return len(calls) >= 2


if __name__ == '__main__':
  check.main()
