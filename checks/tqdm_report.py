"""C03/C04 tqdm progress reporting.  Usage: tqdm_report.py"""
import contextlib
import io
import logging
import sys
import threading

import vp
from vp import st, expect, expect_eq
import repoenv
import sched
import ctxprog

check = vp.Check(
    'C03',
    'Generated bar configurations and operation sequences (update/refresh/'
    'set_description/set_postfix/close/iterate/break, several interleaved bars,'
    ' faulty reporters, nested reporter scopes across threads, asyncio tasks'
    ' and copied contexts) against a model of what the reporter must have'
    ' received. Non-trivial: at least one state was reported after a change of'
    ' n (bars), or the program nests scopes (contexts), or the schedule'
    ' switched inside a report (threads).',
    ['tqdm 4.66 installed here; notebook widgets are not exercised',
     'the tqdm monitor thread is disabled so that reports depend only on the'
     ' generated operations'],
)
T = C = K = None
_restore = None


@check.setup
def _setup():
  global T, C, K
  repoenv.use_repo(['py/koladata/ext/tqdm/proto/progress.proto'])
  import tqdm as _tqdm_pkg  # the real one, before /repo's module
  from koladata.ext.tqdm import types as T_
  from koladata.ext.tqdm import context as C_
  from koladata.ext.tqdm import tqdm as K_
  T, C, K = T_, C_, K_
  _tqdm_pkg.tqdm.monitor_interval = 0
  logging.getLogger('koladata').setLevel(logging.CRITICAL)
  logging.disable(logging.CRITICAL)


def make_reporter(config=None, fail=()):
  class R(T.ProgressReporter):

    def __init__(self):
      super().__init__()
      self.states = []
      self.calls = 0

    def _get_config(self):
      return config if config is not None else T.TqdmConfig()

    def _set_progress_impl(self, state):
      self.calls += 1
      self.states.append(state)
      if self.calls in fail:
        raise RuntimeError('reporter failure')

  return R()


names = st.text(
    alphabet=st.characters(codec='utf-8', exclude_categories=['Cs', 'Cc']),
    max_size=6)

bar_ops = st.one_of(
    st.tuples(st.just('update'), st.integers(0, 7)),
    st.tuples(st.just('update'), st.integers(1, 3)),
    st.tuples(st.just('update_f'), st.sampled_from([0.5, 1.25, 2.0])),
    st.just(('refresh',)),
    st.tuples(st.just('desc'), names),
    st.tuples(st.just('postfix'), names),
    st.tuples(st.just('total'), st.one_of(st.none(), st.integers(0, 30))),
    st.just(('close',)),
)

bar_conf = st.fixed_dictionaries(
    {'total': st.one_of(st.none(), st.integers(0, 30), st.just(10.5))},
    optional={
        'leave': st.booleans(),
        'disable': st.booleans(),
        'desc': names,
        'unit': st.text(alphabet='abit/', min_size=1, max_size=4),
        'initial': st.integers(0, 5),
    },
)


class BarModel:

  def __init__(self, conf):
    self.disable = conf.get('disable', False)
    self.leave = conf.get('leave', True)
    self.total = conf.get('total')
    self.n = conf.get('initial', 0)
    self.initial = conf.get('initial', 0)
    self.desc = conf.get('desc') or ''
    self.unit = conf.get('unit', 'it')
    self.postfix = None
    self.closed = False


def check_state(state, m, closed, bar_id, case):
  expect(isinstance(state, T.ProgressState), 'not a ProgressState')
  expect_eq(state.n, m.n, 'reported n', case=case)
  expect_eq(state.total or None, m.total or None, 'reported total', case=case)
  expect_eq(state.is_closed, closed, 'reported is_closed', case=case)
  shown = (not closed or m.leave) and not m.disable
  expect_eq(bool(state.is_displayed), shown, 'reported is_displayed',
            case=case)
  expect(state.bar_id and state.bar_id == bar_id, 'reported bar id',
         case=case)
  if not m.disable:
    expect_eq(state.initial, m.initial, 'reported initial', case=case)
    expect_eq(state.unit, m.unit, 'reported unit', case=case)
    want = (m.desc + ': ') if m.desc else ''
    expect((state.desc or '') in (m.desc, want, want.strip()),
           'reported description', got=state.desc, want=want, case=case)
    expect_eq(state.postfix or '', m.postfix or '', 'reported postfix',
              case=case)
  expect(state.elapsed_secs >= 0, 'elapsed is negative', case=case)
  if m.total and m.n is not None:
    expect_eq(state.fraction, m.n / m.total, 'fraction', case=case)
  else:
    expect(state.fraction is None, 'fraction of an indeterminate bar',
           case=case)


def apply_bar(bar, m, op):
  """Applies op; returns True when a state must have been reported now."""
  k = op[0]
  if k in ('update', 'update_f'):
    bar.update(op[1])
    if m.disable or m.closed:
      return False
    m.n += op[1]
    # miniters=1 and mininterval=0: every full step is displayed.
    return op[1] >= 1
  if k == 'refresh':
    bar.refresh()
    return not (m.disable or m.closed)
  if m.disable or m.closed:
    return False
  if k == 'desc':
    bar.set_description(op[1])
    m.desc = op[1]
    return True
  if k == 'postfix':
    bar.set_postfix_str(op[1])
    m.postfix = op[1].strip() if False else op[1]
    return True
  if k == 'total':
    bar.total = op[1]
    bar.refresh()
    m.total = op[1]
    return True
  return False


@check.clause(
    lambda: st.tuples(
        st.lists(bar_conf, min_size=1, max_size=3),
        st.lists(st.tuples(st.integers(0, 2), bar_ops), max_size=25),
        st.sets(st.integers(1, 12), max_size=3),
        st.booleans(),
    ),
    n=2500, thorough=40000)
def manual_bars(case):
  confs, ops, fail, leave_ctx = case
  reporter = make_reporter(fail=fail)
  other = make_reporter()
  bars, models, ids = [], [], []
  with C.using_reporter(reporter):
    for conf in confs:
      before = len(reporter.states)
      bar = K.tqdm(mininterval=0, miniters=1, **conf)
      m = BarModel(conf)
      bars.append(bar)
      models.append(m)
      new = reporter.states[before:]
      if m.disable:
        expect(not new, 'a disabled bar reported on construction', case=case)
        ids.append(None)
      else:
        expect(len(new) >= 1, 'initial state was not reported', case=case)
        check_state(new[-1], m, False, new[-1].bar_id, case)
        expect(new[-1].bar_id not in ids, 'bar id not unique', case=case)
        ids.append(new[-1].bar_id)
  nontrivial = False
  ctx = C.using_reporter(other) if leave_ctx else contextlib.nullcontext()
  with ctx:
    for i, op in ops + [(i, ('close',)) for i in range(len(confs))]:
      i %= len(bars)
      bar, m = bars[i], models[i]
      before = len(reporter.states)
      if op[0] == 'close':
        was = m.closed
        bar.close()
        m.closed = True
        new = reporter.states[before:]
        closing = [s for s in new if s.is_closed]
        if was:
          expect(not new, 'report after close', case=case)
        else:
          expect_eq(len(closing), 1, 'a close must report exactly one closed'
                    ' state', case=case)
          expect(new[-1].is_closed, 'report after the closing one', case=case)
          if ids[i] is None:
            expect(closing[0].bar_id and closing[0].bar_id not in ids,
                   'bar id', case=case)
            ids[i] = closing[0].bar_id
          check_state(closing[0], m, True, ids[i], case)
          nontrivial |= m.n != m.initial
      else:
        must = apply_bar(bar, m, op)
        new = reporter.states[before:]
        if m.disable or m.closed:
          expect(not new, 'report from a disabled or closed bar', case=case)
        elif must:
          expect(new, 'a displayed change was not reported', op=op, case=case)
        for s in new:
          expect(not s.is_closed, 'closed state before close', case=case)
        if new:
          check_state(new[-1], m, False, ids[i], case)
      if not m.disable:
        expect_eq(bar.n, m.n, 'bar.n', case=case)
  expect(not other.states, 'states went to a reporter that was installed after'
         ' construction', case=case)
  expect_eq(len({b for b in ids if b is not None}), len(ids),
            'bar ids are not distinct', case=case)
  return nontrivial


@check.clause(
    lambda: st.tuples(
        st.one_of(st.integers(0, 15), st.integers(3, 9)), bar_conf,
        st.one_of(st.none(), st.none(), st.integers(0, 14)),
        st.sets(st.integers(1, 20), max_size=4),
        st.sampled_from(['list', 'gen', 'trange', 'raise']),
        st.sampled_from([True, True, True, False])),
    n=1500, thorough=30000)
def iteration(case):
  """Iterating yields exactly the items and reports each step and the end."""
  count, conf, stop, fail, kind, with_reporter = case
  conf = dict(conf)
  if kind != 'gen':
    conf.pop('total')
  reporter = make_reporter(fail=fail)
  scope = (C.using_reporter(reporter) if with_reporter
           else contextlib.nullcontext())
  items = [('item', i) for i in range(count)]
  seen = []
  out = io.StringIO()
  if not with_reporter:
    conf['file'] = out
  raised = False
  with scope:
    if kind == 'trange':
      items = list(range(count))
      bar = K.trange(count, mininterval=0, miniters=1, **conf)
    elif kind == 'gen':
      bar = K.tqdm((x for x in items), mininterval=0, miniters=1, **conf)
    else:
      bar = K.tqdm(items, mininterval=0, miniters=1, **conf)
    try:
      for x in bar:
        seen.append(x)
        if stop is not None and len(seen) > stop:
          if kind == 'raise':
            raise KeyError('user')
          break
    except KeyError:
      raised = True
  bar.close()
  want = items if stop is None else items[: stop + 1]
  expect_eq(seen, want, 'iteration changed the items', case=case)
  if stop is not None and kind == 'raise' and count > stop:
    expect(raised, 'the loop body exception was swallowed', case=case)
  if not with_reporter:
    expect(not reporter.states, 'reported without an active reporter')
    if not conf.get('disable'):
      expect(out.getvalue(), 'no output without a reporter', case=case)
    return False
  disabled = conf.get('disable', False)
  initial = conf.get('initial', 0)
  done = count if stop is None or count <= stop else stop
  if stop is not None and count == stop + 1:
    done = stop
  st_ = reporter.states
  expect(st_, 'nothing was reported', case=case)
  expect_eq([s.is_closed for s in st_], [False] * (len(st_) - 1) + [True],
            'exactly the last report must be the closing one', case=case)
  expect_eq(len({s.bar_id for s in st_}), 1, 'bar id changed', case=case)
  if disabled:
    expect_eq(len(st_), 1, 'a disabled bar reports only its close', case=case)
    expect(not st_[0].is_displayed, 'disabled bar displayed', case=case)
    return count > 0
  expect_eq(st_[-1].n, initial + done, 'final n', case=case)
  ns = [s.n for s in st_]
  expect_eq(ns, sorted(ns), 'reported n is not monotone', case=case)
  expect_eq(set(ns), set(range(initial, initial + done + 1)),
            'every completed item must be reported', case=case)
  expect_eq(bool(st_[-1].is_displayed), conf.get('leave', True),
            'final is_displayed', case=case)
  if kind in ('list', 'trange', 'raise'):
    expect_eq(st_[-1].total, count, 'total', case=case)
  else:
    expect_eq(st_[-1].total, conf['total'], 'total', case=case)
  return done > 0


interval = st.one_of(st.none(), st.sampled_from([0, 0.25, 1, 3.5, 20]))


@check.clause(
    lambda: st.tuples(
        st.fixed_dictionaries({
            'suppress_file': st.booleans(),
            'suppress_display': st.booleans(),
            'mininterval': interval, 'maxinterval': interval,
            'miniters': st.one_of(st.none(), st.integers(0, 9))}),
        st.fixed_dictionaries({}, optional={
            'mininterval': interval.filter(lambda x: x is not None),
            'maxinterval': interval.filter(lambda x: x is not None),
            'miniters': st.integers(0, 9),
            'file': st.just('buffer')}),
        st.booleans(),
        st.integers(1, 8)),
    n=1500, thorough=20000)
def configuration(case):
  """User arguments win over the reporter's configuration, which wins over
  tqdm's defaults; terminal output is suppressed only when it should be."""
  conf, user, active, total = case
  reporter = make_reporter(T.TqdmConfig(**conf))
  kwargs = dict(user)
  buf = io.StringIO()
  if 'file' in kwargs:
    kwargs['file'] = buf
  err = io.StringIO()
  scope = C.using_reporter(reporter) if active else contextlib.nullcontext()
  old = sys.stderr
  sys.stderr = err
  try:
    with scope:
      bar = K.tqdm(total=total, **kwargs)
      native = {}
      defaults = {'mininterval': 0.1, 'maxinterval': 10.0, 'miniters': 0}
      for k in ('mininterval', 'maxinterval', 'miniters'):
        want = defaults[k]
        if active and conf[k] is not None:
          want = conf[k]
        if k in user:
          want = user[k]
        if k == 'maxinterval' and want != 0:
          # tqdm's own rule.
          mi = user.get('mininterval',
                        conf['mininterval'] if active and
                        conf['mininterval'] is not None else 0.1)
        expect_eq(getattr(bar, k), want, f'effective {k}', case=case)
      bar.update(total)
      bar.close()
  finally:
    sys.stderr = old
  to_file = bool(buf.getvalue())
  to_err = bool(err.getvalue())
  if 'file' in user:
    expect(to_file and not to_err, 'output must go to the explicit file',
           case=case)
  elif active and conf['suppress_file']:
    expect(not to_err, 'terminal output was not suppressed', case=case)
  else:
    expect(to_err, 'terminal output was lost', case=case)
  if active:
    expect(reporter.states and reporter.states[-1].n == total
           and reporter.states[-1].is_closed, 'final state', case=case)
  else:
    expect(not reporter.states, 'inactive reporter was called', case=case)
  return active and (bool(user) or any(
      conf[k] is not None for k in ('mininterval', 'maxinterval', 'miniters')))


@check.clause(lambda: ctxprog.programs(st.one_of(st.none(),
                                                 st.integers(0, 4))),
              n=700, thorough=10000)
def scopes(case):
  """using_reporter / set_reporter nest, restore and isolate."""
  reporters = [make_reporter() for _ in range(5)]

  def to_rep(v):
    return None if v is None else reporters[v]

  counter = [0]

  def observe(v, *entered):
    expect(C.get_reporter() is to_rep(v), 'wrong active reporter', want=v,
           case=case)
    if entered:
      expect(entered[0] is to_rep(v), 'using_reporter yields its reporter')
    counter[0] += 1
    if counter[0] % 5 == 0:
      for r in reporters:
        r.states.clear()
      bar = K.tqdm(total=2, mininterval=0, miniters=1, file=io.StringIO())
      bar.update(1)
      bar.close()
      for i, r in enumerate(reporters):
        expect(bool(r.states) == (i == v), 'bar reported to wrong reporter',
               want=v, case=case)

  it = ctxprog.Interp(lambda v: C.using_reporter(to_rep(v)), observe, None,
                      (lambda v: C.set_reporter(to_rep(v)), C.reset_reporter))
  it.run(case)
  return ctxprog.depth(case) >= 2


@check.clause(
    lambda: st.tuples(
        st.lists(st.lists(st.sampled_from(['set', 'nested', 'config']),
                          min_size=1, max_size=3), min_size=2, max_size=3),
        st.lists(st.tuples(st.integers(0, 60), st.integers(0, 2)), min_size=1,
                 max_size=8)),
    n=1500, thorough=20000)
def atomic_delivery(case):
  """Reports from several threads never overlap inside one reporter, and a
  reporter may call back into itself without deadlocking."""
  threads, schedule = case
  log = []

  class R(T.ProgressReporter):

    def __init__(self):
      super().__init__()
      self.inside = 0
      self.total = 0

    def _set_progress_impl(self, state):
      _critical(self, state, log)
      if state.desc == 'nested':
        log.append(self.tqdm_config.suppress_file)
        self.set_progress(T.ProgressState(n=1, desc='set'))

  sched.patch_locks()
  try:
    r = R()
  finally:
    sched.unpatch_locks()

  want = 0
  for ops in threads:
    for o in ops:
      want += {'set': 1, 'nested': 2, 'config': 0}[o]

  def body(ops):
    def run():
      for o in ops:
        if o == 'config':
          expect(isinstance(r.tqdm_config, T.TqdmConfig), 'config')
        else:
          r.set_progress(T.ProgressState(n=1, desc=o))
    return run

  s = sched.Scheduler([T.__file__, __file__], schedule)
  try:
    errors = s.run([body(o) for o in threads])
  except sched.Deadlock as e:
    raise vp.Violation(f'deadlock: {e}')
  for e in errors:
    if e is not None:
      raise vp.Violation(f'concurrent reports: {e!r}') from e
  expect_eq(r.total, want, 'a concurrent report was lost', case=case)
  return s.switches > len(threads)


def _critical(r, state, log):
  owner = threading.get_ident()
  r.owner = owner
  t = r.total
  log.append(state.n)
  t = t + 1
  if r.owner != owner:
    raise AssertionError('two threads inside _set_progress_impl')
  r.total = t


if __name__ == '__main__':
  check.main()
