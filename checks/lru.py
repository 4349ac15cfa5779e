"""C01: sequential semantics of the size-tracking LRU cache."""
import vp
from vp import st, expect, expect_eq
import repoenv
import lru_model

check = vp.Check(
    'C01',
    'Random histories (1-60 operations over <=8 keys, sizes 0..12 incl. values'
    ' exactly at / just above the limit) run on the real cache and on a'
    ' reference LRU; a history is non-trivial when the model evicted at least'
    ' one entry or refused an oversized one. Global-cache clause: random flag'
    ' values through absl flag parsing.',
    ['the cache is observed only through its public methods'],
)
M = None


@check.setup
def _setup():
  global M
  repoenv.use_repo()
  from koladata.ext.storage import lru_size_tracking_cache as M_
  M = M_


KEYS = [None, 0, 1, 'a', 'b', ('t', 1), 2.5, b'x']


def ops_strategy(max_ops):
  key = st.integers(0, len(KEYS) - 1)
  small = st.integers(0, 12)
  op = st.one_of(
      st.tuples(st.just('set'), key, small),
      st.tuples(st.just('set'), key, small),
      st.tuples(st.just('set'), key, small),
      st.tuples(st.just('get'), key),
      st.tuples(st.just('get'), key),
      st.tuples(st.just('getd'), key),
      st.tuples(st.just('remove'), key),
      st.tuples(st.just('max'), st.integers(-2, 30)),
      st.tuples(st.just('total')),
      st.tuples(st.just('clear')),
  )
  return st.tuples(
      st.one_of(st.integers(0, 30), st.sampled_from([10, 15, 20])),
      st.one_of(st.lists(op, min_size=1, max_size=12),
                st.lists(op, min_size=12, max_size=max_ops),
                st.lists(op, min_size=12, max_size=max_ops)))


@check.clause(lambda: ops_strategy(60), n=6000, thorough=120000)
def history(case):
  limit, ops = case
  real = M.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=limit)
  model = lru_model.Lru(limit)
  interesting = False
  serial = 0
  for step, op in enumerate(ops):
    name = op[0]
    k = KEYS[op[1]] if name in ('set', 'get', 'getd', 'remove') else None
    if name == 'set':
      serial += 1
      # Distinct objects so that identity shows which value is cached; None is
      # a legal value too.
      value = None if serial % 5 == 0 else ['v', serial]
      before = len(model.entries)
      want, evicted = model.set(k, value, op[2])
      got = real.set(
          k, value, M.CacheEntryMetadata(num_bytes_estimate=op[2]))
      expect(got is want, 'set returned the wrong object', step=step, got=got,
             want=want, history=case)
      interesting |= bool(evicted) or op[2] > model.limit
      if evicted:
        vp.label('evicting set')
    elif name == 'get':
      expect(real.get(k) is model.get(k, None), 'get returned the wrong object',
             step=step, history=case)
    elif name == 'getd':
      d = ['default']
      expect(real.get(k, d) is model.get(k, d),
             'get with default returned the wrong object', step=step,
             history=case)
    elif name == 'remove':
      real.remove(k)
      model.remove(k)
    elif name == 'clear':
      real.clear()
      model.clear()
    elif name == 'max':
      if op[1] < 0:
        try:
          real.set_max_total_bytes_of_entries_in_cache(op[1])
        except ValueError:
          vp.label('negative limit')
        else:
          expect(False, 'negative limit accepted', history=case)
      else:
        interesting |= bool(model.set_max(op[1]))
        real.set_max_total_bytes_of_entries_in_cache(op[1])
    total = real.get_total_bytes_of_entries_in_cache()
    expect_eq(total, model.total(), 'byte accounting differs from the sum of'
              ' the entries', step=step, history=case)
    lim = real.get_max_total_bytes_of_entries_in_cache()
    expect_eq(lim, model.limit, 'limit differs', step=step, history=case)
    expect(total <= lim, 'cache exceeds its limit', history=case)
  # Drain: shrinking the limit byte by byte reveals contents and LRU order,
  # without touching recency, through the byte total alone.
  for lim in range(model.limit, -1, -1):
    real.set_max_total_bytes_of_entries_in_cache(lim)
    model.set_max(lim)
    expect_eq(real.get_total_bytes_of_entries_in_cache(), model.total(),
              'eviction order differs from least-recently-used', limit=lim,
              history=case)
  for k in KEYS:
    d = ['absent']
    expect(real.get(k, d) is model.get(k, d), 'contents differ after draining',
           key=k, history=case)
  return interesting


@check.clause(lambda: ops_strategy(25), n=2000, thorough=40000)
def contents(case):
  """As `history`, but reading every key (oldest first) at the end."""
  limit, ops = case
  real = M.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=limit)
  model = lru_model.Lru(limit)
  evictions = False
  for i, op in enumerate(ops):
    if op[0] == 'set':
      v = (i,)
      want, ev = model.set(KEYS[op[1]], v, op[2])
      evictions |= bool(ev)
      expect(real.set(KEYS[op[1]], v,
                      M.CacheEntryMetadata(num_bytes_estimate=op[2])) is want,
             'set returned the wrong object', history=case)
    elif op[0] == 'get':
      expect(real.get(KEYS[op[1]]) is model.get(KEYS[op[1]], None),
             'get differs', history=case)
    elif op[0] == 'remove':
      real.remove(KEYS[op[1]])
      model.remove(KEYS[op[1]])
  for k in KEYS:
    d = ['absent']
    expect(real.get(k, d) is model.get(k, d), 'contents differ', key=k,
           history=case)
  return evictions


@check.clause(st.integers(-10**6, 10**6), n=200, thorough=2000)
def constructor(limit):
  try:
    c = M.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=limit)
  except ValueError:
    expect(limit < 0, 'non-negative limit rejected', limit=limit)
    return True
  expect(limit >= 0, 'negative limit accepted', limit=limit)
  expect_eq(c.get_max_total_bytes_of_entries_in_cache(), limit)
  expect_eq(c.get_total_bytes_of_entries_in_cache(), 0)
  return True


@check.clause(lambda: st.lists(st.tuples(
    st.integers(0, 2), st.integers(0, 50),
    st.one_of(st.integers(0, 40 * 1024 * 1024),
              st.sampled_from([0, 10**7, 3 * 10**7, 50 * 1024 * 1024,
                               100 * 1024 * 1024, 100 * 1024 * 1024 + 1]))),
    min_size=6, max_size=20), n=300,
    thorough=5000)
def large_sizes(case):
  """Byte sizes of realistic magnitude (MBs) and many keys."""
  limit = 100 * 1024 * 1024
  real = M.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=limit)
  model = lru_model.Lru(limit)
  ev = 0
  for rep in range(3):
    for kind, k, size in case:
      if kind == 0:
        expect(real.get(k) is model.get(k, None), 'get differs', history=case)
      v = object()
      want, e = model.set(k, v, size)
      ev += len(e)
      expect(real.set(k, v, M.CacheEntryMetadata(num_bytes_estimate=size))
             is want, 'set differs', history=case)
      expect_eq(real.get_total_bytes_of_entries_in_cache(), model.total(),
                'accounting', history=case)
  return ev > 0


_GLOBAL = None


def _global_cache():
  global _GLOBAL
  if _GLOBAL is None:
    import sys
    import types
    kd = types.ModuleType('koladata.kd')
    kd.types = types.SimpleNamespace(DataBag=type('DataBag', (), {}),
                                     DataSlice=type('DataSlice', (), {}))
    sys.modules['koladata.kd'] = kd
    import koladata
    koladata.kd = kd
    repoenv.absl_flags()
    from koladata.ext.storage import global_cache_lib
    _GLOBAL = global_cache_lib
  return _GLOBAL


@check.clause(lambda: st.lists(st.one_of(
    st.tuples(st.just('flag'), st.integers(-5, 20)),
    st.tuples(st.just('flag'), st.integers(0, 10**6)),
    st.tuples(st.just('set'), st.integers(0, 6), st.integers(0, 12)),
    st.tuples(st.just('get'), st.integers(0, 6)),
    ), min_size=1, max_size=15), n=400, thorough=5000)
def global_limit_follows_flag(case):
  """--kd_ext_storage_global_cache_max_size_mb bounds the global cache."""
  from absl import flags
  lib = _global_cache()
  cache = lib.get_global_cache()
  name = 'kd_ext_storage_global_cache_max_size_mb'
  cache.clear()
  flags.FLAGS[name].value = None
  setattr(flags.FLAGS, name, 7)
  mb = 1024 * 1024
  model = lru_model.Lru(7 * mb)
  nontrivial = False
  for op in case:
    if op[0] == 'flag':
      try:
        setattr(flags.FLAGS, name, op[1])
      except flags.IllegalFlagValueError:
        expect(op[1] < 0, 'non-negative cache size rejected', case=case)
        flags.FLAGS[name].value = model.limit // mb
      else:
        expect(op[1] >= 0, 'negative cache size accepted', case=case)
        model.set_max(op[1] * mb)
        nontrivial = True
    elif op[0] == 'set':
      v = object()
      want, _ = model.set(str(op[1]), v, op[2] * mb)
      got = cache.set(str(op[1]), v,
                      lib.CacheEntryMetadata(num_bytes_estimate=op[2] * mb))
      expect(got is want, 'global cache set differs', case=case)
    else:
      expect(cache.get(str(op[1])) is model.get(str(op[1]), None),
             'global cache get differs', case=case)
    expect(lib.get_global_cache() is cache, 'the global cache was replaced')
    expect_eq(cache.get_max_total_bytes_of_entries_in_cache(), model.limit,
              'limit of the global cache differs from the flag', case=case)
    expect_eq(cache.get_total_bytes_of_entries_in_cache(), model.total(),
              'global cache accounting', case=case)
  return nontrivial


if __name__ == '__main__':
  check.main()
