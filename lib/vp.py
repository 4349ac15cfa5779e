"""Shared driver for the property-based checks.

A check is a set of *clauses*.  A clause couples a Hypothesis strategy that
generates a plain-data `case` with a function that runs the real code on that
case against an oracle.  The function

  * calls `expect(...)` / raises `Violation` when the property is broken,
  * returns a truthy value when the case was non-trivial by the check's rule,
  * lets any exception of the code under test escape: an exception the oracle
    did not expect is a violation as well.

`HarnessError` (and anything raised while importing/building) is an error of the
check and never reported as a violation.

Each clause runs in its own forked process (crash isolation, parallelism).  The
minimal failing case found by Hypothesis' shrinker is pickled to a replay file;
`<check>.py --replay FILE` re-runs exactly this case without Hypothesis.
"""

import argparse
import base64
import collections
import hashlib
import json
import multiprocessing
import os
import pickle
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _HYP not in sys.path:
  sys.path.append(_HYP)

import hypothesis  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401
import hypothesis.errors  # noqa: E402


class Violation(AssertionError):
  """The property is broken on the current case."""


class HarnessError(BaseException):
  """The check itself cannot give an answer (not a violation)."""


def expect(cond, msg='', **info):
  if not cond:
    extra = ''.join(f'\n  {k} = {_short(v)}' for k, v in info.items())
    raise Violation(f'{msg}{extra}')


def expect_eq(got, want, msg='', **info):
  if not (got == want):
    expect(False, msg, got=got, want=want, **info)


def _short(v, n=1500):
  try:
    s = v if isinstance(v, str) else repr(v)
  except Exception as e:  # pylint: disable=broad-except
    s = f'<unrepresentable: {e}>'
  return s if len(s) <= n else s[:n] + '...'


def tier():
  return os.environ.get('VERIF_TIER', 'quick')


def seed():
  try:
    return int(os.environ.get('VERIF_SEED', '1'))
  except ValueError:
    return 1


class Clause:

  def __init__(self, name, strategy, fn, n, thorough, budget_s, corpus, shrink,
               hang_s, native):
    self.hang_s = hang_s
    self.native = native
    self.name = name
    self.strategy = strategy
    self.fn = fn
    self.n = n
    self.thorough = thorough
    self.budget_s = budget_s
    self.corpus = corpus
    self.shrink = shrink


class Check:
  """Collects clauses of a property and runs them."""

  def __init__(self, prop, rule, assumptions=(), level='exploration'):
    self.prop = prop
    self.rule = rule
    self.assumptions = list(assumptions)
    self.level = level
    self.clauses = []
    self._setup = []

  def setup(self, fn):
    """Runs once in the parent before clauses are forked (imports, builds)."""
    self._setup.append(fn)
    return fn

  def clause(self, strategy, n=500, thorough=None, budget_s=None, name=None,
             corpus=(), shrink=True, hang_s=30, native=False):
    """Decorator.  `strategy` may be a callable returning a strategy."""

    def deco(fn):
      self.clauses.append(
          Clause(name or fn.__name__, strategy, fn, n,
                 thorough if thorough is not None else n * 20,
                 budget_s, list(corpus), shrink, hang_s, native)
      )
      return fn

    return deco

  def main(self):
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--clause', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=8)
    args = ap.parse_args()
    t0 = time.time()
    try:
      for fn in self._setup:
        fn()
    except (Exception, HarnessError) as e:  # pylint: disable=broad-except
      if getattr(e, 'vp_violation', False):
        # e.g. a module of the repository does not load any more.
        self._report_setup_violation(e, t0)
        sys.exit(1)
      traceback.print_exc()
      print(f'ERROR property={self.prop}: setup failed: {e}')
      sys.exit(3)
    if args.replay:
      sys.exit(self._replay(args.replay))
    clauses = [c for c in self.clauses
               if not args.clause or c.name in args.clause]
    results = _run_all(self, clauses, args.scale, args.jobs)
    self._finish(results, t0)

  # -- reporting -----------------------------------------------------------

  def _known(self):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
      with open(path) as f:
        for line in f:
          m = re.match(r'known: property=(\w+) (.*)', line.strip())
          if m and m.group(1) == self.prop:
            out.append(m.group(2))
    return out

  def _report_setup_violation(self, e, t0):
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f'{self.prop}-setup.json')
    with open(path, 'w') as f:
      json.dump({'property': self.prop, 'clause': 'setup', 'error': str(e)}, f)
    self._write_evidence([], 1, t0)
    print(_short(str(e), 4000))
    print(f'VIOLATION property={self.prop} replay={path}')

  def _write_evidence(self, results, violations, t0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    samples = []
    labels = {}
    per = {}
    for r in results:
      for s in r['samples']:
        samples.append({'clause': r['clause'], 'case': s})
      labels[r['clause']] = r['labels']
      per[r['clause']] = {
          'evaluations': r['evaluations'],
          'distinct_nontrivial': r['nontrivial'],
      }
      if r.get('truncated'):
        per[r['clause']]['stopped_by_time_budget'] = True
    ev = {
        'property': self.prop,
        'tier': tier() if tier() in ('quick', 'thorough') else 'quick',
        'seed': seed(),
        'level': self.level,
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(r['nontrivial'] for r in results),
            'rule': self.rule,
            'samples': samples,
            'per_clause': per,
            'labels': labels,
        },
        'assumptions': self.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': violations,
    }
    path = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
    tmp = path + f'.{os.getpid()}.tmp'
    with open(tmp, 'w') as f:
      json.dump(ev, f, indent=1, default=str)
      f.write('\n')
    os.replace(tmp, path)

  def _finish(self, results, t0):
    violations = [r for r in results if r['status'] == 'violation']
    errors = [r for r in results if r['status'] == 'error']
    self._write_evidence(results, len(violations), t0)
    for d in self._known():
      print(f'KNOWN-FINDING: property={self.prop} {d}')
    for r in results:
      print(
          f"{self.prop}/{r['clause']}: {r['status']}"
          f" evaluations={r['evaluations']}"
          f" nontrivial={r['nontrivial']} {r['wall_s']:.1f}s"
          + (' (time budget reached)' if r.get('truncated') else '')
      )
    for r in errors:
      print(f"ERROR property={self.prop} clause={r['clause']}:"
            f"\n{r['message']}")
    for r in violations:
      print(_short(r['message'], 4000))
      print(f"VIOLATION property={self.prop} replay={r['replay']}")
    sys.stdout.flush()
    if violations:
      sys.exit(1)
    if errors:
      sys.exit(3)
    sys.exit(0)

  def _replay(self, path):
    with open(path) as f:
      d = json.load(f)
    clause = next((c for c in self.clauses if c.name == d['clause']), None)
    if clause is None:
      print(f'unknown clause {d["clause"]}')
      return 3
    case = pickle.loads(base64.b64decode(d['case_pickle']))
    print(f'replaying {d["clause"]} on {_short(case, 4000)}')
    ctx = _Ctx()
    _install_ctx(ctx)
    try:
      clause.fn(case)
    except HarnessError:
      traceback.print_exc()
      return 3
    except BaseException:  # pylint: disable=broad-except
      traceback.print_exc()
      print(f'VIOLATION property={self.prop} replay={path}')
      return 1
    print('property holds on this case')
    return 0


class _Ctx:

  def __init__(self):
    self.labels = collections.Counter()


_CTX = _Ctx()


def _install_ctx(ctx):
  global _CTX
  _CTX = ctx


class Hang(Violation):
  pass


def _arm(seconds, native):
  """Bounds the CPU time (not wall time) of one case; 0 disarms."""
  if native:
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
  signal.setitimer(signal.ITIMER_PROF, seconds)


def _on_prof(signum, frame):
  raise Hang('the case did not terminate within its CPU budget (cases of this'
             ' clause normally take milliseconds)')


def label(name):
  """Counts a class of generated cases (reported in the evidence)."""
  _CTX.labels[name] += 1


def _clause_main(check, clause, scale, conn, scratch):
  """Runs one clause in a forked child."""
  # Children that hang must not outlive the parent.
  t0 = time.time()
  ctx = _Ctx()
  _install_ctx(ctx)
  state = {'evaluations': 0, 'failure': None, 'truncated': False}
  seen = set()
  samples = []
  cur = os.path.join(scratch, f'{clause.name}.case')
  n = clause.thorough if tier() == 'thorough' else clause.n
  n = max(1, int(n * scale))
  budget = clause.budget_s or (110 if tier() == 'quick' else 3000)
  out = dict(clause=clause.name, status='ok', message='', replay=None)

  signal.signal(signal.SIGPROF, _on_prof)

  def run(case):
    if time.time() - t0 > budget and state['failure'] is None:
      state['truncated'] = True
      return
    state['evaluations'] += 1
    blob = pickle.dumps(case)
    with open(cur, 'wb') as f:
      f.write(blob)
    try:
      _arm(clause.hang_s if state['failure'] is None else 5, clause.native)
      try:
        nontrivial = clause.fn(case)
      finally:
        _arm(0, clause.native)
    except HarnessError:
      raise
    except hypothesis.errors.UnsatisfiedAssumption:
      raise
    except (Exception, SystemExit, KeyboardInterrupt) as e:
      state['failure'] = (blob, case, ''.join(
          traceback.format_exception(type(e), e, e.__traceback__)[-6:]))
      raise
    if nontrivial:
      h = hashlib.blake2b(blob, digest_size=8).digest()
      if h not in seen:
        seen.add(h)
        if len(samples) < 2 or (len(samples) < 4 and len(seen) % 97 == 0):
          samples.append(_short(case, 600))

  try:
    for case in clause.corpus:
      run(case)
    if not n:
      raise StopIteration
    strategy = clause.strategy
    if callable(strategy) and not isinstance(
        strategy, hypothesis.strategies.SearchStrategy):
      strategy = strategy()
    phases = [hypothesis.Phase.generate]
    if clause.shrink:
      phases.append(hypothesis.Phase.shrink)

    sd = int.from_bytes(
        hashlib.blake2b(f'{seed()}:{check.prop}:{clause.name}'.encode(),
                        digest_size=4).digest(), 'big')

    @hypothesis.seed(sd)
    @hypothesis.settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        phases=phases,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(hypothesis.HealthCheck),
        verbosity=hypothesis.Verbosity.quiet,
    )
    @hypothesis.given(strategy)
    def test(case):
      run(case)

    test()
  except StopIteration:
    pass
  except HarnessError as e:
    out['status'] = 'error'
    out['message'] = traceback.format_exc()
  except BaseException as e:  # pylint: disable=broad-except
    if state['failure'] is None:
      out['status'] = 'error'
      out['message'] = traceback.format_exc()
    else:
      blob, case, tb = state['failure']
      out['status'] = 'violation'
      out['message'] = f'{check.prop}/{clause.name} broken\n{tb}'
      out['replay'] = _write_replay(check, clause.name, blob, case, tb)
  out.update(
      evaluations=state['evaluations'],
      nontrivial=len(seen),
      samples=samples,
      labels=dict(ctx.labels),
      truncated=state['truncated'],
      wall_s=time.time() - t0,
  )
  conn.send(out)
  conn.close()


def _write_replay(check, clause_name, blob, case, message):
  rdir = os.path.join(VERIF, 'replays')
  os.makedirs(rdir, exist_ok=True)
  h = hashlib.blake2b(blob, digest_size=5).hexdigest()
  path = os.path.join(rdir, f'{check.prop}-{clause_name}-{h}.json')
  script = os.path.relpath(os.path.abspath(sys.argv[0]), VERIF)
  with open(path, 'w') as f:
    json.dump(
        {
            'property': check.prop,
            'clause': clause_name,
            'case': _short(case, 20000),
            'case_pickle': base64.b64encode(blob).decode(),
            'error': _short(message, 6000),
            'replay_cmd': f'cd /verif && bash run.sh {script} --replay {path}',
        },
        f,
        indent=1,
    )
  return path


def _run_all(check, clauses, scale, jobs):
  import shutil
  import tempfile
  scratch = tempfile.mkdtemp(prefix='vp-')
  ctxm = multiprocessing.get_context('fork')
  pending = list(clauses)
  running = {}
  results = {}
  hard = 800 if tier() == 'quick' else 6 * 3600
  t0 = time.time()
  try:
    while pending or running:
      while pending and len(running) < jobs:
        c = pending.pop(0)
        r, w = ctxm.Pipe(duplex=False)
        p = ctxm.Process(target=_clause_main, args=(check, c, scale, w, scratch))
        p.start()
        w.close()
        running[c.name] = (c, p, r)
      multiprocessing.connection.wait(
          [x[2] for x in running.values()], timeout=1.0)
      for name, (c, p, r) in list(running.items()):
        res = None
        if r.poll():
          try:
            res = r.recv()
            p.join(5)
            if p.is_alive():
              p.kill()
          except EOFError:
            p.join()
            res = _crashed(check, c, p.exitcode, scratch)
        elif not p.is_alive() and not r.poll(0.2):
          res = _crashed(check, c, p.exitcode, scratch)
        elif time.time() - t0 > hard:
          p.kill()
          p.join()
          res = dict(clause=name, status='error', message='timed out',
                     replay=None, evaluations=0, nontrivial=0, samples=[],
                     labels={}, wall_s=time.time() - t0)
        if res is not None:
          results[name] = res
          del running[name]
          r.close()
  finally:
    for _, p, _ in running.values():
      p.kill()
    shutil.rmtree(scratch, ignore_errors=True)
  return [results[c.name] for c in clauses]


def _crashed(check, clause, exitcode, scratch):
  """The child died (native crash): the case it was running is the replay."""
  base = dict(clause=clause.name, evaluations=0, nontrivial=0, samples=[],
              labels={}, wall_s=0.0, replay=None)
  cur = os.path.join(scratch, f'{clause.name}.case')
  native = exitcode is not None and -exitcode in (
      signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
      signal.SIGILL, signal.SIGPROF)
  if native and os.path.exists(cur):
    with open(cur, 'rb') as f:
      blob = f.read()
    case = pickle.loads(blob)
    msg = f'process died with signal {-exitcode} on this case'
    return dict(base, status='violation', message=msg,
                replay=_write_replay(check, clause.name, blob, case, msg))
  return dict(base, status='error',
              message=f'clause process ended with code {exitcode}')


import multiprocessing.connection  # noqa: E402
