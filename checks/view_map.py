"""C09: View broadcasting and element-wise application."""
import operator
import sys
import weakref

import vp
from vp import st, expect
import view_model as vm

check = vp.Check(
    'C09',
    'Generated jagged arrays up to depth 4 (prefix-compatible, 1 in 8'
    ' incompatible), leaves include None, tuples, lists and dicts; the result'
    ' of every element-wise operation is compared with a path-indexed model.'
    ' Non-trivial: the common shape has depth >= 1 and at least two items.',
    ['The view extension module is compiled from /repo with a stand-in for'
     ' the arolla Python helpers (PyObjectPtr, PyTuple_AsSpan).'],
)
R = None


@check.setup
def _setup():
  global R
  R = vm.Real()


def big(views):
  m = max(views, key=lambda v: v[0])
  return m[0] >= 1 and len(vm.from_nested(vm.subst(m[1], None), m[0]).leaf) >= 2


mixed = st.one_of(vm.prims, vm.containers)
KW = ['a', 'b', 'zeta', 'self_', 'f1']


@st.composite
def map_case(draw):
  n = draw(st.integers(1, 5))
  views = draw(vm.compatible(n, mixed))
  nkw = draw(st.integers(0, n))
  return dict(
      views=views, nkw=nkw,
      names=draw(st.permutations(KW))[:nkw],
      include=draw(st.booleans()),
      aslist=draw(st.booleans()),
      fail_at=draw(st.one_of(st.none(), st.none(), st.integers(0, 6))),
  )


class Token:
  """A unique result object."""

  def __init__(self, args):
    self.args = args


def recorder(fail_at):
  calls = []

  def f(*a, **k):
    key = (a, tuple(sorted(k.items(), key=lambda x: x[0])))
    calls.append(key)
    if fail_at is not None and len(calls) > fail_at:
      raise RuntimeError('requested')
    return Token(key)

  return f, calls


def token_tree(t):
  if isinstance(t, Token):
    return ('token', t.args)
  return t


def ident(x):
  return id(x) if not isinstance(x, (int, str, bytes, float, type(None))) else x


def calls_key(calls):
  return [([ident(x) for x in a], [(k, ident(x)) for k, x in kw])
          for a, kw in calls]


@check.clause(map_case, n=2000, thorough=80000, native=True)
def map_structures(c):
  """The extension function: values, call arguments, errors, references."""
  objs = [vm.subst(v, R.present) for _, v in c['views']]
  depths = [d for d, _ in c['views']]
  npos = len(objs) - c['nkw']
  models = [vm.from_nested(o, d) for o, d in zip(objs, depths)]
  mf, mcalls = recorder(c['fail_at'])
  try:
    want = vm.map_n(mf, models[:npos], dict(zip(c['names'], models[npos:])),
                    c['include'])
    werr = None
  except RuntimeError as e:
    werr = RuntimeError
  except vm.Fail:
    werr = TypeError
  cont = list if c['aslist'] else tuple
  f, calls = recorder(c['fail_at'])
  args = [f, cont(depths), c['include'], cont(objs)]
  if c['nkw'] or c['aslist']:
    args.append(tuple(c['names']))
  res = None
  try:
    res = R.clib.map_structures(*args)
    gerr = None
  except Exception as e:  # pylint: disable=broad-except
    gerr = type(e)
  expect(gerr is werr, 'map_structures error', got=gerr, want=werr)
  ok = werr is None
  if ok:
    got = vm.from_nested(res, want.depth)
    expect(got.sizes == want.sizes, 'shape of the result', got=res,
           want=want.nested())
    for p in want.paths():
      g, w = got.leaf[p], want.leaf[p]
      if w is None:
        expect(g is None, 'missing item', p=p, got=g)
      else:
        expect(type(g) is Token and calls_key([g.args]) == calls_key([w.args]),
               'item of the result', p=p, got=getattr(g, 'args', g),
               want=w.args)
    expect(sorted(map(repr, calls_key(calls)))
           == sorted(map(repr, calls_key(mcalls))), 'calls of the function')
  n = len(calls)
  # Everything is released again.
  leaves = [x for m in models for x in m.leaf.values() if not isinstance(
      x, (int, str, bytes, float, type(None)))]
  leaves += [args[1], args[3]] + objs
  born = []

  def new():
    t = Token(None)
    born.append(weakref.ref(t))
    return t

  if gerr is RuntimeError:
    def f(*a, **k):
      if len(born) >= 2:
        raise ValueError
      return new()
  else:
    def f(*a, **k):
      return new()
  args[0] = f
  g = w = res = got = want = None
  calls.clear()
  mcalls.clear()
  leaves.append(f)
  leaves.append(new)
  before = refcounts(leaves)
  for _ in range(3):
    try:
      R.clib.map_structures(*args)
    except Exception:  # pylint: disable=broad-except
      pass
  after = refcounts(leaves)
  expect(before == after, 'reference counts changed', before=before,
         after=after)
  expect(not any(r() for r in born), 'results of the function leaked')
  return ok and max(depths) >= 1 and n >= 2


def refcounts(xs):
  return [sys.getrefcount(x) for x in xs]


FUNCS = {
    'pair': lambda *a, **k: (a, tuple(sorted(k.items()))),
    'first': lambda *a, **k: (list(a) + list(k.values()))[0],
    'none': lambda *a, **k: None,
    'ident': lambda *a, **k: a[-1] if a else None,
}


@st.composite
def kvmap_case(draw):
  n = draw(st.integers(1, 4))
  nkw = draw(st.integers(0, n))
  return dict(
      views=draw(vm.compatible(n, vm.prims)), nkw=nkw,
      names=draw(st.permutations(KW))[:nkw],
      f=draw(st.sampled_from(sorted(FUNCS))),
      ndim=draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3, -1])),
      include=draw(st.sampled_from([None, None, True, False])),
      unbox=draw(st.booleans()),
      method=draw(st.booleans()),
  )


def unbox_scalars(reals):
  return [r.get() if r.get_depth() == 0 else r for r in reals]


@check.clause(kvmap_case, n=2000, thorough=80000)
def kv_map(c):
  rm = [R.view(v) for v in c['views']]
  reals, models = [r for r, _ in rm], [m for _, m in rm]
  f = FUNCS[c['f']]
  npos = len(reals) - c['nkw']
  if c['unbox']:
    reals = unbox_scalars(reals)
  kw = {}
  if c['include'] is not None:
    kw['include_missing'] = c['include']
  if c['ndim']:
    kw['ndim'] = c['ndim']
  model = lambda: vm.map_ndim(
      f, models[:npos], dict(zip(c['names'], models[npos:])), c['ndim'],
      c['include'])
  if c['method'] and len(reals) == 1 and npos == 1 and not c['unbox']:
    real = lambda: reals[0].map(f, **kw)
  else:
    real = lambda: R.kv.map(
        f, *reals[:npos], **dict(zip(c['names'], reals[npos:])), **kw)
  r = vm.agree('map', real, model)
  vp.label(f'ndim={c["ndim"]}')
  return r is not None and big(c['views'])


@st.composite
def pair_case(draw):
  return dict(views=draw(vm.compatible(2, vm.prims)),
              ndim=draw(st.sampled_from([0, 0, 1, 2, -1])),
              unbox=draw(st.booleans()), op=draw(st.booleans()))


@check.clause(pair_case, n=700, thorough=40000)
def expand_to(c):
  (a, ma), (b, mb) = [R.view(v) for v in c['views']]
  if c['unbox']:
    b = unbox_scalars([b])[0]
  if c['op']:
    real = lambda: R.kv.expand_to(a, b, ndim=c['ndim'])
  else:
    real = lambda: a.expand_to(b, c['ndim'])
  r = vm.agree('expand_to', real, lambda: vm.expand_to(ma, mb, c['ndim']))
  return r is not None and big(c['views'])


@check.clause(lambda: st.integers(0, 5).flatmap(
    lambda n: st.tuples(vm.compatible(n, vm.prims, mismatch=n > 0),
                        st.booleans())), n=600, thorough=30000)
def align(case):
  views, unbox = case
  rm = [R.view(v) for v in views]
  reals = [r for r, _ in rm]
  if unbox:
    reals = unbox_scalars(reals)
  r = vm.agree('align', lambda: R.kv.align(*reals),
               lambda: vm.align(*[m for _, m in rm]))
  if r is None:
    return False
  got, want = r
  expect(type(got) is tuple and len(got) == len(want), 'align arity', got=got)
  for i, (g, w) in enumerate(zip(got, want)):
    d = vm.diff(g, w)
    expect(d is None, f'align()[{i}]: {d}')
  return bool(views) and big(views)


CMP = {
    'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt,
    'less_equal': operator.le, 'greater': operator.gt,
    'greater_equal': operator.ge,
}


@st.composite
def cmp_case(draw):
  leaf = draw(st.sampled_from([vm.ints, vm.ints, vm.prims]))
  return dict(views=draw(vm.compatible(2, leaf)),
              op=draw(st.sampled_from(sorted(CMP))),
              spelling=draw(st.sampled_from(['kv', 'op', 'unbox_b', 'unbox_a',
                                             'kv_unbox'])))


@check.clause(cmp_case, n=800, thorough=40000)
def compare(c):
  (a, ma), (b, mb) = [R.view(v) for v in c['views']]
  f = CMP[c['op']]
  if c['spelling'] in ('unbox_b', 'kv_unbox'):
    b = unbox_scalars([b])[0]
  if c['spelling'] in ('unbox_a', 'kv_unbox') and b is not None:
    a = unbox_scalars([a])[0]
  if not isinstance(a, R.view_lib.View) and not isinstance(
      b, R.view_lib.View) or a is R.present:
    real = lambda: getattr(R.kv, c['op'])(a, b)
  elif c['spelling'].startswith('kv'):
    real = lambda: getattr(R.kv, c['op'])(a, b)
  else:
    real = lambda: f(a, b)
  r = vm.agree(c['op'], real, lambda: vm.map_n(
      lambda x, y: R.present if f(x, y) else None, [ma, mb]))
  return r is not None and big(c['views'])


@st.composite
def mask_case(draw):
  fm = draw(st.sampled_from([vm.mask, vm.mask, vm.mask, vm.prims]))
  return dict(views=draw(vm.compatible(2, [vm.prims, fm])),
              spelling=draw(st.sampled_from(['kv', 'op', 'unbox_b',
                                             'unbox_a'])))


def _mask(x, y):
  if y is R.present:
    return x
  raise ValueError('not a mask')


@check.clause(mask_case, n=700, thorough=30000)
def apply_mask(c):
  (a, ma), (b, mb) = [R.view(v) for v in c['views']]
  if c['spelling'] == 'unbox_b':
    b = unbox_scalars([b])[0]
  if c['spelling'] == 'unbox_a' and ma.depth == 0:
    a = ma.leaf[()]
  if c['spelling'] == 'kv':
    real = lambda: R.kv.apply_mask(a, b)
  else:
    real = lambda: a & b
  r = vm.agree('&', real, lambda: vm.map_n(_mask, [ma, mb]))
  return r is not None and big(c['views'])


@check.clause(mask_case, n=600, thorough=30000)
def coalesce(c):
  (a, ma), (b, mb) = [R.view(v) for v in c['views']]
  if c['spelling'] == 'unbox_b':
    b = unbox_scalars([b])[0]
  if c['spelling'] == 'unbox_a' and ma.depth == 0:
    a = ma.leaf[()]
  if c['spelling'] == 'kv':
    real = lambda: R.kv.coalesce(a, b)
  else:
    real = lambda: a | b
  r = vm.agree('|', real, lambda: vm.map_n(
      lambda x, y: y if x is None else x, [ma, mb], include_missing=True))
  return r is not None and big(c['views'])


@check.clause(vm.nested_shape(2, 2).flatmap(lambda s: st.tuples(
    st.just(s), st.one_of(vm.mask, vm.prims))), n=200, thorough=4000)
def truth(case):
  """bool(view) is defined for scalar masks only."""
  (d, shape), leaf = case
  v, m = R.view((d, vm.fill(shape, d, None, lambda _: leaf)))
  x = m.leaf.get(())
  if d == 0 and (x is None or x is R.present):
    expect(bool(v) is (x is R.present), 'bool(view)', item=x)
    return True
  try:
    r = bool(v)
  except ValueError:
    return d > 0
  raise vp.Violation(f'bool({v!r}) returned {r}')


if __name__ == '__main__':
  check.main()
