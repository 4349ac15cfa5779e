"""Generators shared by the checks of the C++ core."""
import kd
import vp
from vp import st

SIZES = (1, 2, 3, 4, 5, 9, 17, 65, 130, 200, 300)
NAMES = ('a', 'b', 'long attribute name/é')


def alloc_specs(kinds='eeld', max_n=5, sizes=SIZES):
  """[(kind, size)]; size 0 stands for the single-object allocator."""
  return st.lists(st.tuples(st.sampled_from(kinds),
                            st.sampled_from((0,) + tuple(sizes))),
                  min_size=1, max_size=max_n)


def allocs(d, specs):
  return [kd.Alloc(d, k, n or 1, single=not n) for k, n in specs]


_small = st.integers(0, 6)


def id_specs(max_segments=4):
  """A slice of ids: segments of allocations, missing items, repetitions.

  (alloc, start, count, step) | ('m', n) | ('rep', n) repeats what is there |
  ('each', count) the first id of that many allocations.
  """
  seg = st.one_of(
      st.tuples(_small, st.integers(0, 300),
                st.sampled_from((1, 1, 2, 3, 5, 20, 70, 300)),
                st.sampled_from((1, 1, 1, 2, -1, 7))),
      st.tuples(_small, st.just(0), st.just(300), st.just(1)),
      st.tuples(st.just('m'), st.integers(1, 3)),
      st.tuples(st.just('rep'), st.just(2)),
      st.tuples(st.just('each'), st.integers(0, 3)))
  return st.lists(seg, min_size=0, max_size=max_segments)


def ids(spec, al, kinds=None, limit=700):
  """Tokens of the slice; only allocations of the given kinds."""
  use = [a for a in al if kinds is None or a.kind in kinds]
  out = []
  for s in spec:
    if s[0] == 'm':
      out += ['_'] * s[1]
    elif s[0] == 'rep':
      out = (out * s[1])[:limit]
    elif s[0] == 'each':
      out += [a[s[1]] for a in use]
    elif use:
      a = use[s[0] % len(use)]
      n = min(s[2], a.size)
      out += [a[s[1] + i * s[3]] for i in range(n)]
  return out[:limit]


def one_ids():
  return st.tuples(_small, st.integers(0, 300))


def one_id(spec, al, kinds=None):
  use = [a for a in al if kinds is None or a.kind in kinds]
  if not use:
    return '_'
  return use[spec[0] % len(use)][spec[1]]


class Pool:
  """Values: primitives and ids; -1 is a missing value."""

  def __init__(self, al, prims=kd.PRIMS):
    self.prims = prims
    self.al = al

  def tok(self, v):
    if v == -1:
      return '_'
    if isinstance(v, tuple):
      return one_id(v, self.al)
    return self.prims[v % len(self.prims)]


def values(prims=kd.PRIMS):
  """One value."""
  return st.one_of(st.integers(0, len(prims) - 1),
                   st.integers(0, len(prims) - 1), one_ids(), st.just(-1))


def patterns(prims=kd.PRIMS):
  """Values of a slice, repeated to its size.  Often of one type."""
  one = st.integers(0, len(prims) - 1).flatmap(
      lambda i: st.lists(st.sampled_from([i, i, (i + 1) % len(prims), -1]),
                         min_size=1, max_size=4))
  return st.one_of(one, one, st.lists(values(prims), min_size=1, max_size=6),
                   st.lists(one_ids(), min_size=1, max_size=3),
                   st.just([-1]))


def fill(pattern, n, pool):
  t = [pool.tok(v) for v in pattern]
  return [t[i % len(t)] for i in range(n)]


def slice_arg(toks, style=0):
  """The tokens as an argument; built in one of three ways."""
  return ('', '~', '^')[style] + kd.items(toks)
