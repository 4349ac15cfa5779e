"""Harness-owned thread schedules for Python code.

`patch_locks()` must run before the code under test is imported: it replaces
threading.Lock/RLock/Condition-free primitives by cooperative ones.  `Scheduler.run`
executes thread bodies one at a time and switches threads only at opcode
boundaries of the traced source files (or when a lock blocks), following a
generated list of preemptions, so that a schedule is a plain value which
Hypothesis can generate and shrink.
"""

import sys
import threading

_RealLock = threading.Lock
_RealRLock = threading.RLock
_current = None  # the active Scheduler


class Deadlock(Exception):
  pass


class _Abort(BaseException):
  pass


class CoopLock:
  """Re-entrant or plain lock that blocks through the scheduler."""

  def __init__(self, reentrant):
    self._reentrant = reentrant
    self._owner = None
    self._count = 0

  def acquire(self, blocking=True, timeout=-1):
    me = threading.get_ident()
    s = _current
    if s is not None and s.managed(me):
      s.point(me)
    while True:
      if self._owner is None:
        self._owner = me
        self._count = 1
        return True
      if self._owner == me and self._reentrant:
        self._count += 1
        return True
      if not blocking:
        return False
      if s is None or not s.managed(me):
        if self._owner == me:
          raise Deadlock('non-reentrant lock acquired twice')
        raise RuntimeError('unmanaged thread would block')
      s.block_on(me, self)

  def release(self):
    if self._owner is None or (
        self._reentrant and self._owner != threading.get_ident()):
      raise RuntimeError('cannot release un-acquired lock')
    self._count -= 1
    if self._count == 0:
      self._owner = None

  def locked(self):
    return self._owner is not None

  def _is_owned(self):
    return self._owner == threading.get_ident()

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *args):
    self.release()


def patch_locks():
  threading.Lock = lambda: CoopLock(False)
  threading.RLock = lambda: CoopLock(True)


def unpatch_locks():
  threading.Lock = _RealLock
  threading.RLock = _RealRLock


class Scheduler:
  """Runs bodies under a schedule: a list of (steps, thread_choice)."""

  def __init__(self, files, preemptions):
    self._files = frozenset(files)
    self._pre = list(preemptions)
    self._i = 0
    self._left = self._pre[0][0] if self._pre else -1
    self.steps = 0
    self.switches = 0
    self._abort = None

  def managed(self, ident):
    return ident in self._sem_by_ident

  def _other(self, me):
    """Next runnable thread index chosen by the schedule (or None)."""
    n = len(self._bodies)
    cand = [i for i in range(n)
            if not self._done[i] and i != me and self._runnable(i)]
    if not cand:
      return None
    choice = self._pre[self._i][1] if self._i < len(self._pre) else 0
    return cand[choice % len(cand)]

  def _runnable(self, i):
    lk = self._blocked[i]
    return lk is None or lk._owner is None

  def point(self, ident):
    """A possible preemption point."""
    if self._abort is not None:
      raise _Abort()
    self.steps += 1
    if self._left < 0:
      return
    if self._left > 0:
      self._left -= 1
      return
    me = self._index[ident]
    other = self._other(me)
    self._i += 1
    self._left = self._pre[self._i][0] if self._i < len(self._pre) else -1
    if other is not None:
      self._switch(me, other)

  def _switch(self, me, other):
    self.switches += 1
    self._sems[other].release()
    self._sems[me].acquire()
    if self._abort is not None:
      raise _Abort()

  def block_on(self, ident, lock):
    me = self._index[ident]
    self._blocked[me] = lock
    while lock._owner is not None:
      other = self._other(me)
      if other is None:
        self._fail(Deadlock('all threads are blocked'))
        raise _Abort()
      self._switch(me, other)
    self._blocked[me] = None

  def _fail(self, exc):
    if self._abort is None:
      self._abort = exc
    for s in self._sems:
      s.release()

  def _trace(self, frame, event, arg):
    if frame.f_code.co_filename not in self._files:
      return None
    frame.f_trace_opcodes = True
    frame.f_trace_lines = False
    if event == 'call':
      self.point(threading.get_ident())
    return self._local

  def _local(self, frame, event, arg):
    if event == 'opcode':
      self.point(threading.get_ident())
    return self._local

  def run(self, bodies):
    """Runs all bodies to completion; returns their exceptions (or None)."""
    global _current
    self._bodies = bodies
    n = len(bodies)
    self._sems = [_Sem() for _ in range(n)]
    self._done = [False] * n
    self._blocked = [None] * n
    self._index = {}
    self._sem_by_ident = {}
    errors = [None] * n
    started = _Sem()
    finished = _Sem()

    def body(i):
      ident = threading.get_ident()
      self._index[ident] = i
      self._sem_by_ident[ident] = self._sems[i]
      started.release()
      self._sems[i].acquire()
      try:
        if self._abort is None:
          sys.settrace(self._trace)
          bodies[i]()
      except _Abort:
        pass
      except BaseException as e:  # pylint: disable=broad-except
        errors[i] = e
      finally:
        sys.settrace(None)
        self._done[i] = True
        if self._abort is None:
          other = self._other(i)
          if other is not None:
            self._sems[other].release()
          elif not all(self._done):
            self._fail(Deadlock('remaining threads are blocked'))
        finished.release()

    import _thread
    _current = self
    try:
      for i in range(n):
        _thread.start_new_thread(body, (i,))
        started.acquire()
      self._sems[0].release()
      for _ in range(n):
        finished.acquire()
    finally:
      _current = None
    if self._abort is not None:
      raise self._abort
    return errors


class _Sem:
  """Minimal semaphore on raw locks (immune to patched threading)."""

  def __init__(self):
    import _thread
    self._m = _thread.allocate_lock()
    self._w = _thread.allocate_lock()
    self._w.acquire()
    self._n = 0

  def release(self):
    with self._m:
      self._n += 1
      if self._n == 1 and self._w.locked():
        self._w.release()

  def acquire(self):
    while True:
      self._w.acquire()
      with self._m:
        self._n -= 1
        if self._n > 0:
          self._w.release()
        return


def linearizable(history, initial, apply, final_ok):
  """history: list of (inv, res, op, result); brute-force search."""
  ops = sorted(range(len(history)), key=lambda i: history[i][0])

  def rec(remaining, state):
    if not remaining:
      return final_ok(state)
    min_res = min(history[i][1] for i in remaining)
    for i in remaining:
      if history[i][0] > min_res:
        continue
      got = apply(state, history[i][2])
      if got is None:
        continue
      new_state, result = got
      if result == history[i][3] and rec(
          [j for j in remaining if j != i], new_state):
        return True
    return False

  return rec(ops, initial)
