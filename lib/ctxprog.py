"""Generated programs over a scoped context value.

A program is a tree of statements; the interpreter knows lexically which value
must be visible at every point, so it needs no state of its own.
"""
import asyncio
import contextvars
import threading

from vp import st


def programs(values, max_leaves=14):
  """values: strategy of JSON-able values."""
  exits = st.sampled_from(['fall', 'raise', 'raise', 'fall', 'baseexc'])
  leaf = st.one_of(st.just(('get',)), st.just(('yield',)))

  def extend(children):
    body = st.lists(children, min_size=1, max_size=4)
    return st.one_of(
        st.tuples(st.just('with'), values, body, exits),
        st.tuples(st.just('with'), values, body, exits),
        st.tuples(st.just('setreset'), values, body, exits),
        st.tuples(st.just('thread'), body),
        st.tuples(st.just('ctx'), body),
        st.tuples(st.just('tasks'), st.lists(body, min_size=2, max_size=3)),
        st.tuples(st.just('reuse'), values, body),
    )

  stmt = st.recursive(leaf, extend, max_leaves=max_leaves)
  return st.lists(stmt, min_size=1, max_size=5)


class _E(Exception):
  pass


class _B(BaseException):
  pass


def depth(prog):
  d = 0
  for s in prog:
    for part in s:
      if isinstance(part, list):
        if part and isinstance(part[0], list):
          d = max(d, 1 + max(depth(b) for b in part))
        else:
          d = max(d, 1 + depth(part))
  return d


class Interp:
  """observe(expected): checks the visible value.

  scope(v): context manager factory.  setreset: optional (set, reset) pair.
  """

  def __init__(self, scope, observe, default, setreset=None):
    self.scope = scope
    self.observe = observe
    self.default = default
    self.setreset = setreset
    self.features = set()

  def run(self, prog):
    self.observe(self.default)
    errors = []

    def go():
      try:
        asyncio.run(self._body(prog, self.default, True))
      except BaseException as e:  # pylint: disable=broad-except
        errors.append(e)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    if errors:
      raise errors[0]
    self.observe(self.default)

  async def _body(self, prog, expected, tasks_ok):
    for s in prog:
      await self._stmt(s, expected, tasks_ok)
      self.observe(expected)

  async def _stmt(self, s, expected, tasks_ok):
    kind = s[0]
    self.features.add(kind)
    if kind == 'get':
      self.observe(expected)
    elif kind == 'yield':
      await asyncio.sleep(0)
    elif kind in ('with', 'setreset'):
      _, v, body, how = s
      exc = {'fall': None, 'raise': _E, 'baseexc': _B}[how]
      try:
        if kind == 'with' or self.setreset is None:
          with self.scope(v) as entered:
            self.observe(v, entered)
            await self._body(body, v, tasks_ok)
            if exc:
              raise exc()
        else:
          token = self.setreset[0](v)
          try:
            self.observe(v)
            await self._body(body, v, tasks_ok)
          finally:
            self.setreset[1](token)
      except (_E, _B) as e:
        assert exc is not None and type(e) is exc
      else:
        # An exception raised inside the scope must not be swallowed.
        if exc is not None and kind == 'with':
          raise AssertionError('the scope swallowed an exception')
    elif kind == 'reuse':
      # Entering the same scope twice in a row.
      for _ in range(2):
        with self.scope(s[1]):
          await self._body(s[2], s[1], tasks_ok)
        self.observe(expected)
    elif kind == 'thread':
      errors = []
      started = []

      def go():
        try:
          self.observe(self.default)
          asyncio.run(self._body(s[1], self.default, True))
        except BaseException as e:  # pylint: disable=broad-except
          errors.append(e)

      t = threading.Thread(target=go)
      t.start()
      t.join()
      if errors:
        raise errors[0]
    elif kind == 'ctx':
      ctx = contextvars.copy_context()
      coro = self._body(s[1], expected, False)

      def drive():
        try:
          while True:
            coro.send(None)
        except StopIteration:
          pass

      ctx.run(drive)
    elif kind == 'tasks':
      if tasks_ok:
        await asyncio.gather(*[
            asyncio.create_task(self._inter(b, expected)) for b in s[1]])
      else:
        for b in s[1]:
          await self._body(b, expected, False)

  async def _inter(self, prog, expected):
    for s in prog:
      await asyncio.sleep(0)
      await self._stmt(s, expected, True)
      await asyncio.sleep(0)
      self.observe(expected)
