"""C08: unwrap follows decorators to the function the user wrote."""
import functools

import vp
from vp import st, expect
import repoenv

check = vp.Check(
    'C08',
    'Generated chains (0-40 links) of functools.wraps decorators, partials,'
    ' callable objects, classes and bound methods, optionally ending in a'
    ' non-callable __wrapped__ or in a cycle; the result must be the innermost'
    ' callable (or a member of the cycle). Non-trivial: at least two links.',
)
U = None


@check.setup
def _setup():
  global U
  repoenv.use_repo()
  from koladata.util import kd_functools
  U = kd_functools


class Obj:

  def __init__(self, f=None):
    self.f = f

  def __call__(self, *a):
    return self.f(*a) if self.f else 0

  def method(self):
    return 1


class Unhashable(Obj):
  """E.g. a callable dataclass with eq=True."""
  __hash__ = None

  def __eq__(self, other):
    return type(self) is type(other)


class AllEqual(Obj):

  def __hash__(self):
    return 1

  def __eq__(self, other):
    return True


link = st.sampled_from(['unhashable', 'allequal', 'wraps', 'partial', 'obj', 'cls', 'wraps_cls',
                        'cache', 'lambda'])


def wrap(kind, f):
  if kind == 'wraps':
    @functools.wraps(f)
    def g(*a, **k):
      return f(*a, **k)
    g.__wrapped__ = f
    return g
  if kind == 'lambda':
    g = lambda *a: f(*a)
    g.__wrapped__ = f
    return g
  if kind == 'partial':
    g = functools.partial(f)
    g.__wrapped__ = f
    return g
  if kind == 'obj':
    g = Obj(f)
    g.__wrapped__ = f
    return g
  if kind in ('unhashable', 'allequal'):
    g = Unhashable(f) if kind == 'unhashable' else AllEqual(f)
    g.__wrapped__ = f
    return g
  if kind == 'cls':
    class K:
      def __call__(self):
        return 0
    K.__wrapped__ = f
    return K
  if kind == 'cache':
    g = functools.lru_cache(None)(lambda: f())
    g.__wrapped__ = f
    return g
  if kind == 'wraps_cls':
    g = functools.update_wrapper(Obj(f), f)
    g.__wrapped__ = f
    return g
  raise vp.HarnessError(kind)


base = st.sampled_from(['fn', 'lambda', 'builtin', 'obj', 'class', 'method',
                        'partial'])


def make_base(kind):
  def fn(x=1):
    return x
  return {
      'fn': fn, 'lambda': lambda: 2, 'builtin': len, 'obj': Obj(),
      'class': type('C', (), {}), 'method': Obj().method,
      'partial': functools.partial(fn, 3)}[kind]


@check.clause(
    st.tuples(base, st.lists(link, max_size=40),
              st.sampled_from(['plain', 'noncallable', 'none', 'plain'])),
    n=2000, thorough=30000)
def chain(case):
  b, links, end = case
  f = make_base(b)
  if end != 'plain':
    if b in ('builtin', 'method'):
      f = make_base('fn')
    f.__wrapped__ = {'noncallable': 42, 'none': None}[end]
  g = f
  for k in links:
    g = wrap(k, g)
  got = U.unwrap(g)
  # A class that carries __wrapped__ hands it on to nothing else: compare by
  # identity (bound methods by equality, they are created on access).
  expect(got is f or (b == 'method' and got == f),
         'unwrap did not reach the innermost function', got=got, want=f,
         case=case)
  expect(U.unwrap(f) is f or b == 'method', 'unwrap of an undecorated function')
  return len(links) >= 2


@check.clause(
    st.tuples(st.lists(link, min_size=0, max_size=6),
              st.lists(link, min_size=1, max_size=6)),
    n=600, thorough=8000, hang_s=10)
def cycles(case):
  tail, cyc = case
  first = make_base('fn')
  members = [first]
  g = first
  for k in cyc:
    g = wrap(k, g)
    members.append(g)
  first.__wrapped__ = g  # closes the cycle
  for k in tail:
    g = wrap(k, g)
  got = U.unwrap(g)
  expect(any(got is m for m in members), 'unwrap must stop inside the cycle',
         case=case)
  return len(members) >= 3


if __name__ == '__main__':
  check.main()
