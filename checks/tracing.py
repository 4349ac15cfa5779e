"""C05: tracing mode scopes; C06: eager/tracing dispatch (run with the id)."""
import sys
import types

import vp
from vp import st, expect, expect_eq
import repoenv
import ctxprog

PROP = 'C05'
check = vp.Check(
    'C05',
    'Scopes: generated programs of nested enable_tracing scopes with'
    ' exceptions, threads, asyncio tasks and copied contexts, the visible mode'
    ' compared with the lexically expected one. Dispatch: generated modules'
    ' (attributes drawn from unhashable, equal-but-distinct, falsy and shared'
    ' objects) and registrations, every attribute read in both modes against a'
    ' table. Non-trivial: scopes nest at least two deep / the module has'
    ' attributes that differ between the modes.',
)
TM = None


@check.setup
def _setup():
  global TM
  repoenv.use_repo()
  from koladata.expr import tracing_mode as TM_
  TM = TM_


class _Weird:
  """Equal to everything, unhashable."""

  def __eq__(self, other):
    return True

  __hash__ = None


class _Raises:

  def __eq__(self, other):
    raise RuntimeError('no comparison')

  def __hash__(self):
    raise RuntimeError('no hash')


def _pool():
  """Fresh objects; indices are what the generator refers to."""
  return [
      [], [], {}, {}, 0, False, '', 1, 1.0, 'x', (), frozenset(),
      _Weird(), _Weird(), _Raises(), _Raises(), lambda: 1, lambda: 1, len,
      {'a': 1}, {'a': 1}, type, int, object(), types.SimpleNamespace(a=1),
      types.SimpleNamespace(a=1), float('nan'),
  ]


NPOOL = 27


@check.clause(lambda: ctxprog.programs(st.booleans()), n=900, thorough=12000)
def scopes(case):
  def observe(v, *entered):
    expect_eq(TM.is_tracing_enabled(), v, 'wrong tracing mode', case=case)

  it = ctxprog.Interp(TM.enable_tracing, observe, False)
  it.run(case)
  with TM.enable_tracing():
    expect_eq(TM.is_tracing_enabled(), True, 'enable_tracing() must enable')
  return ctxprog.depth(case) >= 2


@check.clause(lambda: ctxprog.programs(st.booleans()), n=500, thorough=8000)
def dispatch_follows_scopes(case):
  """Attribute reads see the mode of the reading thread/task."""
  configs = {}
  mod = types.ModuleType('generated_mod')
  eager, tracing, same, only = ['e'], ['t'], ['s'], ['o']
  mod.__all__ = ['a', 'b', 'c']
  mod.a = TM.configure_tracing(configs, eager, tracing)
  mod.b = TM.same_when_tracing(configs, same)
  mod.c = TM.eager_only(configs, only)
  d = TM.prepare_module_for_tracing(mod, configs)

  def observe(v, *entered):
    expect(d.a is (tracing if v else eager), 'wrong version', mode=v, case=case)
    expect(d.b is same, 'wrong shared version', case=case)
    if v:
      try:
        d.c
      except AttributeError:
        pass
      else:
        expect(False, 'eager-only attribute readable when tracing', case=case)
    else:
      expect(d.c is only, 'wrong eager-only value', case=case)

  ctxprog.Interp(TM.enable_tracing, observe, False).run(case)
  return ctxprog.depth(case) >= 2


idx = st.integers(0, NPOOL - 1)
reg = st.one_of(
    st.tuples(st.just('dispatch'), idx, idx),
    st.tuples(st.just('dispatch'), idx, st.one_of(st.none(), idx)),
    st.tuples(st.just('same'), idx),
    st.tuples(st.just('only'), idx),
    st.tuples(st.just('temp'), idx),
)
attr_names = st.sampled_from(
    ['a', 'b', 'c', 'f', 'obj', 'mod', 'name', 'eager', 'tracing', 'types',
     'x1', '_p', 'Cls'])


def _register(configs, table, pool, r, case):
  """Applies one registration to the real configs and to the model table."""
  kind = r[0]
  if kind == 'temp':
    # A temporary object must never clash with one registered before, even if
    # it lands on the same address.
    for j in range(3):
      tmp = ['tmp', j] if r[1] % 2 else object()
      got = TM.configure_tracing(configs, tmp, j)
      expect(got is tmp, 'registration must return the eager object')
      del tmp, got
    return
  e = pool[r[1]]
  if kind == 'same':
    t = e
    call = lambda: TM.same_when_tracing(configs, e)
  elif kind == 'only':
    t = None
    call = lambda: TM.eager_only(configs, e)
  else:
    t = None if r[2] is None else pool[r[2]]
    call = lambda: TM.configure_tracing(configs, e, t)
  known = next((x for x in table if x[0] is e), None)
  clash = known is not None and known[1] is not t
  try:
    got = call()
  except ValueError:
    expect(clash, 'a consistent registration was rejected', reg=r, case=case)
    vp.label('conflict')
    return
  expect(not clash, 'a conflicting registration was accepted', reg=r,
         case=case)
  expect(got is e, 'registration must return the eager object', case=case)
  if known is None:
    table.append((e, t))


@check.clause(
    lambda: st.tuples(
        st.lists(reg, max_size=14),
        st.dictionaries(attr_names, st.integers(0, 100), max_size=8),
        st.lists(attr_names, max_size=3),
        st.integers(0, 100),
        st.lists(reg, max_size=3),
        st.booleans()),
    n=3000, thorough=50000)
def module_table(case):
  regs, attrs, extra, missing_every, later, mutate = case
  pool = _pool()
  configs, table = {}, []
  for r in regs:
    _register(configs, table, pool, r, case)
  mod = types.ModuleType('generated_mod2')
  mod.__doc__ = 'doc'
  values = {}
  for name, j in attrs.items():
    if table and j >= missing_every // 3:
      values[name] = table[j % len(table)][0]
    else:
      values[name] = pool[j % len(pool)]
    setattr(mod, name, values[name])
  exported = list(attrs)
  mod.__all__ = exported
  hidden = [n for n in extra if n not in attrs]
  for n in hidden:
    setattr(mod, n, object())

  def lookup(obj):
    return next((x for x in table if x[0] is obj), None)

  incomplete = [n for n in exported if lookup(values[n]) is None]
  try:
    d = TM.prepare_module_for_tracing(mod, configs)
  except ValueError:
    expect(incomplete, 'a complete module was rejected', case=case)
    vp.label('incomplete module')
    return False
  expect(not incomplete, 'a module with unregistered exports was accepted',
         case=case)
  want = {n: (values[n], lookup(values[n])[1]) for n in exported}
  if mutate:
    # What was prepared is fixed: later registrations and rebinding in the
    # original module must not change it.
    for r in later:
      _register(configs, table, pool, r, case)
    configs.clear()
    for n in exported:
      setattr(mod, n, object())
  differs = False
  for n, (e, t) in want.items():
    expect(getattr(d, n) is e, 'wrong eager attribute', name=n, case=case)
    with TM.enable_tracing():
      if t is None:
        differs = True
        try:
          getattr(d, n)
        except AttributeError:
          pass
        else:
          expect(False, 'eager-only attribute readable in tracing mode',
                 name=n, case=case)
        expect(not hasattr(d, n), 'hasattr must be False when tracing')
      else:
        expect(getattr(d, n) is t, 'wrong tracing attribute', name=n,
               case=case)
        differs |= t is not e
      with TM.enable_tracing(False):
        expect(getattr(d, n) is e, 'wrong eager attribute when disabled',
               case=case)
    expect(getattr(d, n) is e, 'wrong eager attribute', name=n, case=case)
    for mode in (False, True):
      with TM.enable_tracing(mode):
        try:
          setattr(d, n, 1)
        except AttributeError:
          pass
        else:
          expect(False, 'attribute could be overwritten', name=n, case=case)
    expect(getattr(d, n) is e, 'assignment changed the attribute', case=case)
  for n in hidden:
    expect(not hasattr(d, n), 'unexported attribute visible', name=n,
           case=case)
  expect_eq(sorted(dir(d)), sorted(exported), 'dir()', case=case)
  expect_eq(list(d.__all__), exported, '__all__', case=case)
  expect_eq(d.__doc__, 'doc', '__doc__')
  return differs


@check.clause(lambda: st.dictionaries(attr_names, st.booleans(), min_size=1,
                                      max_size=5), n=150, thorough=1000)
def pickles_by_module(case):
  """A dispatcher reloads as the module registered under its name, also when
  it is captured by a function."""
  import cloudpickle
  name = 'generated_pickle_mod'
  configs = {}
  mod = types.ModuleType(name)
  mod.__all__ = list(case)
  for n, same in case.items():
    obj = [n]
    setattr(mod, n, obj)
    if same:
      TM.same_when_tracing(configs, obj)
    else:
      TM.configure_tracing(configs, obj, [n, 't'])
  d = TM.prepare_module_for_tracing(mod, configs)
  sys.modules[name] = d
  try:
    back = cloudpickle.loads(cloudpickle.dumps({'k': d}))['k']
    expect(back is d, 'unpickling must yield the registered dispatcher',
           case=case)
    n0 = list(case)[0]
    f = lambda: getattr(d, n0)
    g = cloudpickle.loads(cloudpickle.dumps(f))
    expect(g() is getattr(mod, n0), 'pickled function sees another module')
  finally:
    del sys.modules[name]
  return True


if __name__ == '__main__':
  check.main()
