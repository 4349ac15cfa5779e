"""C04: ProgressState snapshots and their ProgressRecord wire form."""
import dataclasses
import math

import vp
from vp import st, expect, expect_eq
import repoenv

check = vp.Check(
    'C04',
    'Generated snapshots (every field, incl. None, 0, negative, huge, unicode)'
    ' go through to_proto / bytes / from_proto and are compared field by field'
    ' modulo the documented 0/None normalisation; fraction and ETA are'
    ' recomputed. Non-trivial: at least three fields differ from their'
    ' defaults.',
    ['floats are finite (JSON/proto doubles); NaN is not generated'],
)
T = P = None


@check.setup
def _setup():
  global T, P
  repoenv.use_repo(['py/koladata/ext/tqdm/proto/progress.proto'])
  import tqdm  # noqa: F401
  from koladata.ext.tqdm import types as T_
  from koladata.ext.tqdm.proto import progress_pb2 as P_
  T, P = T_, P_


num = st.one_of(
    st.integers(-3, 50), st.integers(0, 2**53),
    st.floats(allow_nan=False, allow_infinity=False, width=64),
    st.sampled_from([0, 0.0, 1, 0.5, 1e-9, 1e18]))
text = st.text(alphabet=st.characters(codec='utf-8'), max_size=8)
state = st.fixed_dictionaries({}, optional={
    'n': st.one_of(st.none(), num),
    'total': st.one_of(st.none(), num),
    'elapsed_secs': num,
    'rate': st.one_of(st.none(), num),
    'initial': num,
    'unit': text,
    'desc': st.one_of(st.none(), text),
    'postfix': st.one_of(st.none(), text),
    'bar_id': text,
    'is_closed': st.booleans(),
    'is_displayed': st.booleans(),
})
DEFAULTS = dict(n=None, total=None, elapsed_secs=0.0, rate=None, initial=0.0,
                unit='it', desc=None, postfix=None, bar_id='',
                is_closed=False, is_displayed=True)


@check.clause(state, n=4000, thorough=80000)
def round_trip(case):
  s = T.ProgressState(**case)
  full = dict(DEFAULTS, **case)
  for k, v in full.items():
    expect_eq(getattr(s, k), v, f'field {k}', case=case)
  data = s.to_proto().SerializeToString()
  rec = P.ProgressRecord.FromString(data)
  back = T.ProgressState.from_proto(rec)
  want = dict(full)
  want['n'] = full['n'] or 0.0
  for k in ('total', 'rate', 'desc', 'postfix'):
    want[k] = full[k] or None
  want['unit'] = full['unit'] or 'it'
  for k, v in want.items():
    got = getattr(back, k)
    expect(got == v and (v is not None or got is None),
           f'field {k} changed by the round trip', got=got, want=v, case=case)
  # The wire form itself is what other processes read.
  for k in ('n', 'total', 'elapsed_secs', 'rate', 'initial'):
    expect_eq(getattr(rec, k), float(full[k] or 0.0), f'proto {k}', case=case)
  for k in ('unit', 'desc', 'postfix', 'bar_id'):
    expect_eq(getattr(rec, k), full[k] or '', f'proto {k}', case=case)
  for k in ('is_closed', 'is_displayed'):
    expect_eq(getattr(rec, k), full[k], f'proto {k}', case=case)
  again = T.ProgressState.from_proto(back.to_proto())
  expect_eq(again, back, 'the round trip is not idempotent', case=case)
  return sum(full[k] != DEFAULTS[k] for k in full) >= 3


@check.clause(state, n=3000, thorough=60000)
def derived(case):
  s = T.ProgressState(**case)
  full = dict(DEFAULTS, **case)
  n, total, rate = full['n'], full['total'], full['rate']
  if n is None or not total:
    expect(s.fraction is None, 'fraction of an indeterminate bar', case=case)
  else:
    expect_eq(s.fraction, n / total, 'fraction', case=case)
  if n is None or not total or not rate:
    expect(s.remaining_s is None, 'ETA without a rate/total', case=case)
  else:
    want = (total - n) / rate
    expect(s.remaining_s is not None and
           (s.remaining_s == want or
            math.isclose(s.remaining_s, want, rel_tol=1e-9)),
           'ETA', got=s.remaining_s, want=want, case=case)
  try:
    s.n = 3
  except dataclasses.FrozenInstanceError:
    pass
  else:
    expect(False, 'snapshot is mutable')
  return bool(total) and n is not None


@check.clause(
    st.tuples(
        st.fixed_dictionaries(
            {'n': num, 'total': st.one_of(st.none(), num)},
            optional={'elapsed': num, 'rate': st.one_of(st.none(), num),
                      'initial': num, 'unit': text,
                      'prefix': st.one_of(st.none(), text),
                      'postfix': st.one_of(st.none(), text),
                      'ncols': st.none(), 'colour': st.none()}),
        text, st.booleans(), st.booleans()),
    n=2000, thorough=40000)
def from_tqdm(case):
  fmt, bar_id, closed, displayed = case
  s = T.ProgressState.from_tqdm(dict(fmt), bar_id=bar_id, is_closed=closed,
                                is_displayed=displayed)
  want = dict(
      n=fmt['n'], total=fmt['total'], elapsed_secs=fmt.get('elapsed', 0.0),
      rate=fmt.get('rate'), initial=fmt.get('initial', 0.0),
      unit=fmt.get('unit', 'it'), desc=fmt.get('prefix'),
      postfix=fmt.get('postfix'), bar_id=bar_id, is_closed=closed,
      is_displayed=displayed)
  for k, v in want.items():
    got = getattr(s, k)
    expect(got == v and (v is not None or got is None),
           f'field {k} of the snapshot', got=got, want=v, case=case)
  return len(fmt) >= 4


if __name__ == '__main__':
  check.main()
