"""C02: the LRU cache is linearizable under every thread interleaving."""
import os
import vp
from vp import st, expect
import repoenv
import lru_model
import sched

check = vp.Check(
    'C02',
    '2-3 threads of 1-4 generated cache operations each run under a generated'
    ' schedule (harness-owned, switches at opcode granularity inside the cache'
    ' module, cooperative locks); the observed results plus a final drain must'
    ' be explained by some sequential order consistent with real time. A case'
    ' is non-trivial when the schedule really switched threads inside an'
    ' operation.',
    ['preemption only inside the traced module; C-level dict operations are'
     ' atomic as in CPython'],
)
M = None


@check.setup
def _setup():
  global M
  repoenv.use_repo()
  sched.patch_locks()
  from koladata.ext.storage import lru_size_tracking_cache as M_
  sched.unpatch_locks()
  M = M_


def _ops():
  key = st.integers(0, 3)
  return st.one_of(
      st.tuples(st.just('set'), key, st.integers(0, 6)),
      st.tuples(st.just('set'), key, st.integers(1, 6)),
      st.tuples(st.just('get'), key),
      st.tuples(st.just('remove'), key),
      st.tuples(st.just('max'), st.integers(0, 12)),
      st.tuples(st.just('total')),
      st.tuples(st.just('clear')),
  )


def _case():
  gap = st.one_of(st.integers(0, 12), st.integers(0, 150))
  return st.tuples(
      st.integers(4, 12),
      st.lists(st.tuples(st.integers(0, 3), st.integers(1, 5)), max_size=4),
      st.lists(st.lists(_ops(), min_size=1, max_size=4), min_size=2,
               max_size=3),
      st.lists(st.tuples(gap, st.integers(0, 2)), min_size=1, max_size=8),
  )


def _apply_model(state, op, tag):
  m = state.copy()
  if op[0] == 'set':
    return m, m.set(op[1], tag, op[2])[0]
  if op[0] == 'get':
    return m, m.get(op[1], None)
  if op[0] == 'remove':
    m.remove(op[1])
    return m, None
  if op[0] == 'max':
    m.set_max(op[1])
    return m, None
  if op[0] == 'total':
    return m, m.total()
  m.clear()
  return m, None


def _apply_real(c, op, tag):
  if op[0] == 'set':
    return c.set(op[1], tag, M.CacheEntryMetadata(num_bytes_estimate=op[2]))
  if op[0] == 'get':
    return c.get(op[1])
  if op[0] == 'remove':
    return c.remove(op[1])
  if op[0] == 'max':
    return c.set_max_total_bytes_of_entries_in_cache(op[1])
  if op[0] == 'total':
    return c.get_total_bytes_of_entries_in_cache()
  return c.clear()


def _observe(apply_fn, get_max):
  """Destructive observation of the whole state: presence, order, bytes."""
  out = [apply_fn(('total',))]
  for lim in range(get_max(), -1, -1):
    apply_fn(('max', lim))
    out.append(apply_fn(('total',)))
  return out


@check.clause(_case, n=4000, thorough=60000)
def linearizable(case):
  limit, prefill, threads, schedule = case
  sched.patch_locks()
  try:
    cache = M.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=limit)
  finally:
    sched.unpatch_locks()
  model = lru_model.Lru(limit)
  for i, (k, size) in enumerate(prefill):
    _apply_real(cache, ('set', k, size), ('p', i))
    model.set(k, ('p', i), size)
  history = []
  clock = [0]

  def body(t):
    def run():
      for j, op in enumerate(threads[t]):
        inv = clock[0] = clock[0] + 1
        res = _apply_real(cache, op, (t, j))
        clock[0] += 1
        history.append((inv, clock[0], (op, (t, j)), res))
    return run

  s = sched.Scheduler([M.__file__], schedule)
  try:
    errors = s.run([body(t) for t in range(len(threads))])
  except sched.Deadlock as e:
    raise vp.Violation(f'deadlock: {e} on {case}')
  for e in errors:
    if e is not None:
      raise vp.Violation(f'an operation failed: {e!r} on {case}') from e
  expect(cache.get_total_bytes_of_entries_in_cache()
         <= cache.get_max_total_bytes_of_entries_in_cache(),
         'cache exceeds its limit after concurrent use', case=case)
  final_max = cache.get_max_total_bytes_of_entries_in_cache()
  present = None
  got = _observe(lambda op: _apply_real(cache, op, None), lambda: final_max)

  def final_ok(m):
    m = m.copy()
    if m.limit != final_max:
      return False
    def ap(op):
      if op[0] == 'max':
        m.set_max(op[1])
        return None
      return m.total()
    return _observe(ap, lambda: final_max) == got

  ok = sched.linearizable(
      history, model, lambda st_, o: _apply_model(st_, o[0], o[1]), final_ok)
  expect(ok, 'no sequential order explains the concurrent history',
         history=history, final=got, case=case)
  return s.switches > len(threads)


if __name__ == '__main__':
  check.main()
