"""Reference model of Koda View: path-indexed jagged arrays.

A view is a set of index paths of a fixed length (`depth`), each holding a leaf
object, plus the number of children of every inner path.  Nothing here recurses
over nested tuples the way the implementation does.
"""

import itertools
import types

import vp
from vp import st

MISSING = object()


class Fail(Exception):
  """The model says that the operation has to raise."""


class Unspecified(Exception):
  """The documentation leaves open what happens."""


class MV:
  """depth, sizes: {inner path: n children}, leaf: {path: object}."""

  def __init__(self, depth, sizes, leaf):
    self.depth = depth
    self.sizes = sizes
    self.leaf = leaf

  def paths(self, d=None):
    """Paths of length d in row-major order."""
    d = self.depth if d is None else d
    ps = [()]
    for _ in range(d):
      ps = [p + (i,) for p in ps for i in range(self.sizes[p])]
    return ps

  def nested(self, prefix=(), upto=None):
    upto = self.depth if upto is None else upto
    level = {p: self.leaf[p] for p in self.paths() if p[:len(prefix)] == prefix}
    for d in range(self.depth - 1, len(prefix) - 1, -1):
      level = {
          p: tuple(level[p + (i,)] for i in range(self.sizes[p]))
          for p in self.paths(d) if p[:len(prefix)] == prefix
      }
    return level[prefix]

  def leaves(self):
    return [self.leaf[p] for p in self.paths()]


def from_nested(obj, depth):
  sizes = {}
  level = {(): obj}
  for _ in range(depth):
    nxt = {}
    for p, o in level.items():
      if type(o) is not tuple:
        raise Fail('not a tuple')
      sizes[p] = len(o)
      for i, c in enumerate(o):
        nxt[p + (i,)] = c
    level = nxt
  return MV(depth, sizes, level)


def scalar(x):
  return MV(0, {}, {(): x})


def common_shape(*vs):
  """The deepest of the views; raises if one is not prefix-compatible."""
  ref = max(vs, key=lambda v: v.depth)
  for v in vs:
    for d in range(v.depth):
      if v.paths(d) != ref.paths(d):
        raise Fail('shape')
      for p in v.paths(d):
        if v.sizes[p] != ref.sizes[p]:
          raise Fail('shape')
  return ref


def map_n(f, args, kwargs=None, include_missing=False):
  kwargs = kwargs or {}
  allv = list(args) + list(kwargs.values())
  ref = common_shape(*allv)
  leaf = {}
  for p in ref.paths():
    xs = [v.leaf[p[:v.depth]] for v in args]
    ks = {k: v.leaf[p[:v.depth]] for k, v in kwargs.items()}
    if not include_missing and any(
        x is None for x in itertools.chain(xs, ks.values())):
      leaf[p] = None
    else:
      leaf[p] = f(*xs, **ks)
  return MV(ref.depth, dict(ref.sizes), leaf)


def implode(v, ndim=1):
  if ndim < 0:
    ndim = v.depth
  if ndim > v.depth:
    raise Fail('implode')
  d = v.depth - ndim
  return MV(d, {p: n for p, n in v.sizes.items() if len(p) < d},
            {p: v.nested(p) for p in v.paths(d)})


def unwrap_dims(v, ndim):
  """Turns leaves that are tuples into dimensions."""
  return from_nested(v.nested(), v.depth + ndim)


def explode(v, ndim=1):
  if ndim < 0:
    raise Fail('ndim')
  for _ in range(ndim):
    leaf = {}
    sizes = dict(v.sizes)
    for p in v.paths():
      x = v.leaf[p]
      items = [] if x is None else list(x)
      sizes[p] = len(items)
      for i, c in enumerate(items):
        leaf[p + (i,)] = c
    v = MV(v.depth + 1, sizes, leaf)
  return v


def clamp(d, depth):
  if d < 0:
    d += depth
  return max(0, min(d, depth))


def flatten(v, from_dim=0, to_dim=None):
  lo = clamp(from_dim, v.depth)
  hi = v.depth if to_dim is None else clamp(to_dim, v.depth)
  hi = max(lo, hi)
  # Dimensions [lo, hi) become one.
  sizes = {}
  leaf = {}
  newpath = {}
  for p in v.paths(lo):
    group = [q for q in v.paths(hi) if q[:lo] == p]
    for i, q in enumerate(group):
      newpath[q] = p + (i,)
    sizes[p] = len(group)
  for p, n in v.sizes.items():
    if len(p) < lo:
      sizes[p] = n
    elif len(p) >= hi:
      sizes[newpath[p[:hi]] + p[hi:]] = n
  for p in v.paths():
    leaf[newpath[p[:hi]] + p[hi:]] = v.leaf[p]
  return MV(v.depth - (hi - lo) + 1, sizes, leaf)


def expand_to(v, other, ndim=0):
  if ndim < 0:
    raise Fail('ndim')
  w = implode(v, ndim) if ndim else v
  if w.depth > other.depth:
    raise Fail('depth')
  common_shape(w, other)
  res = MV(other.depth, dict(other.sizes),
           {p: w.leaf[p[:w.depth]] for p in other.paths()})
  return unwrap_dims(res, ndim) if ndim else res


def align(*vs):
  if not vs:
    return ()
  ref = common_shape(*vs)
  return tuple(expand_to(v, ref) for v in vs)


def map_ndim(f, args, kwargs, ndim, include_missing):
  kwargs = kwargs or {}
  if include_missing is None:
    include_missing = bool(ndim)
  if not ndim:
    return map_n(f, args, kwargs, include_missing)
  if not include_missing or ndim < 0:
    raise Fail('include_missing/ndim')
  al = align(*args, *kwargs.values())
  if ndim > al[0].depth:
    raise Fail('ndim too large')
  al = [implode(v, ndim) for v in al]
  return map_n(f, al[:len(args)], dict(zip(kwargs, al[len(args):])), True)


def get_item(v, key):
  def f(x, k):
    try:
      return x[k]
    except (IndexError, KeyError):
      return None
  return map_n(f, [v, key])


def get_slice(v, start, stop):
  return explode(MV(v.depth, v.sizes, {
      p: None if x is None else x[start:stop] for p, x in v.leaf.items()}))


def take(v, key):
  return get_item(implode(v), key)


def collapse(v, ndim=1):
  if ndim < 0 or ndim > v.depth:
    raise Fail('ndim')
  d = v.depth - ndim
  leaf = {}
  for p in v.paths(d):
    vals = [v.leaf[q] for q in v.paths() if q[:d] == p and v.leaf[q] is not None]
    leaf[p] = vals[0] if vals and not any(vals[0] != x for x in vals) else None
  return MV(d, {p: n for p, n in v.sizes.items() if len(p) < d}, leaf)


def select(v, fltr, expand_filter, present):
  if fltr.depth > v.depth:
    raise Fail('depth')
  if not v.depth:
    raise Fail('scalar')
  if not expand_filter and not fltr.depth:
    raise Fail('scalar filter')
  common_shape(v, fltr)
  bad = [x for x in fltr.leaves() if x is not None and x is not present]
  level = v.depth if expand_filter else fltr.depth
  if bad:
    # An invalid filter item that decides about something has to be reported.
    for p in v.paths(level if fltr.depth == level else level - 1):
      x = fltr.leaf[p[:fltr.depth]]
      if x is not None and x is not present:
        raise Fail('invalid filter')
    raise Unspecified
  sizes = {p: n for p, n in v.sizes.items() if len(p) < level - 1}
  leaf = {}
  for p in v.paths(level - 1):
    kept = [p + (i,) for i in range(v.sizes[p])
            if fltr.leaf[(p + (i,))[:fltr.depth]] is present]
    sizes[p] = len(kept)
    for i, q in enumerate(kept):
      for r, n in v.sizes.items():
        if r[:level] == q:
          sizes[p + (i,) + r[level:]] = n
      for r in v.leaf:
        if r[:level] == q:
          leaf[p + (i,) + r[level:]] = v.leaf[r]
  return MV(v.depth, sizes, leaf)


def inverse_select(v, fltr, present):
  if fltr.depth != v.depth or not v.depth:
    raise Fail('depth')
  common_shape(implode(v), fltr)
  if any(x is not None and x is not present for x in fltr.leaves()):
    raise Fail('invalid filter')
  leaf = {}
  for p in v.paths(v.depth - 1):
    pos = [i for i in range(fltr.sizes[p]) if fltr.leaf[p + (i,)] is present]
    if len(pos) != v.sizes[p]:
      raise Fail('count')
    for i in range(fltr.sizes[p]):
      leaf[p + (i,)] = None
    for i, j in enumerate(pos):
      leaf[p + (j,)] = v.leaf[p + (i,)]
  return MV(v.depth, dict(fltr.sizes), leaf)


def group_by(v, keys, sort):
  if not v.depth:
    raise Fail('scalar')
  for k in keys:
    if k.depth != v.depth:
      raise Fail('depth')
  common_shape(v, *keys)
  keys = keys or [v]
  sizes = {p: n for p, n in v.sizes.items() if len(p) < v.depth - 1}
  leaf = {}
  for p in v.paths(v.depth - 1):
    rows = []
    for i in range(v.sizes[p]):
      q = p + (i,)
      ks = [k.leaf[q] for k in keys]
      if not any(x is None for x in ks):
        for x in ks:
          hash(x)  # Unhashable keys raise TypeError.
        rows.append((ks, v.leaf[q]))
    order = []
    for ks, _ in rows:
      if ks not in order:
        order.append(ks)
    if sort:
      order = sorted(order)
    sizes[p] = len(order)
    for i, ks in enumerate(order):
      members = [x for k2, x in rows if k2 == ks]
      sizes[p + (i,)] = len(members)
      for j, x in enumerate(members):
        leaf[p + (i, j)] = x
  return MV(v.depth + 1, sizes, leaf)


# -- comparison ---------------------------------------------------------------

_PRIM = (int, float, str, bytes, bool)


def same_leaf(a, b):
  if a is b:
    return True
  if type(a) is not type(b):
    return False
  if isinstance(a, _PRIM):
    return a == b
  if isinstance(a, (tuple, list)):
    # New containers may be made by the operation; the items may not.
    return len(a) == len(b) and all(same_leaf(x, y) for x, y in zip(a, b))
  return False


def diff(view, want):
  """Returns None or how the View differs from the model."""
  if view.get_depth() != want.depth:
    return f'depth {view.get_depth()} instead of {want.depth}'
  try:
    got = from_nested(view.get(), view.get_depth())
  except Fail:
    return f'{view.get()!r} is not nested tuples of depth {view.get_depth()}'
  if got.sizes != want.sizes:
    return f'shape: {view.get()!r} instead of {want.nested()!r}'
  for p in want.paths():
    if not same_leaf(got.leaf[p], want.leaf[p]):
      return (f'item {p}: {got.leaf[p]!r} instead of {want.leaf[p]!r}\n'
              f'  got  {view.get()!r}\n  want {want.nested()!r}')
  return None


# -- generators ---------------------------------------------------------------

PRESENT = '<present>'  # Placeholder: the case has to be plain data.


class Ob:
  """A leaf with attributes, compared by identity."""

  def __init__(self, **kw):
    self.__dict__.update(kw)

  def __repr__(self):
    return f'Ob({self.__dict__})'


def nested_shape(max_depth=4, max_size=3):
  """A jagged shape: nested lists of ints-less placeholders (0)."""
  def at(d):
    if d == 0:
      return st.just(0)
    c = at(d - 1)
    return st.one_of(
        st.lists(c, max_size=max_size),
        st.lists(c, min_size=1, max_size=max_size),
        st.lists(c, min_size=min(2, max_size), max_size=max_size),
    ).map(tuple)
  return st.sampled_from([x for x in (0, 1, 1, 2, 2, 3, 4)
                          if x <= max_depth]).flatmap(
      lambda d: st.tuples(st.just(d), at(d)))


def truncate(shape, d):
  """The prefix of depth d of nested shape (leaves become 0)."""
  if d == 0:
    return 0
  return tuple(truncate(c, d - 1) for c in shape)


def fill(shape, depth, leaf, draw):
  if depth == 0:
    return draw(leaf)
  return tuple(fill(c, depth - 1, leaf, draw) for c in shape)


ints = st.one_of(st.none(), st.integers(-3, 3))
prims = st.one_of(st.none(), st.integers(-3, 3), st.sampled_from(
    ['', 'a', 'b', 'ab', b'x', True, False, 1.0, 0.5, PRESENT]))
mask = st.sampled_from([PRESENT, None])


def subst(x, present):
  if type(x) is str and x == PRESENT:
    return present
  if type(x) is tuple:
    return tuple(subst(c, present) for c in x)
  if type(x) is list:
    return [subst(c, present) for c in x]
  if type(x) is dict:
    return {k: subst(c, present) for k, c in x.items()}
  return x


containers = st.one_of(
    st.none(),
    st.lists(prims, max_size=4),
    st.lists(prims, max_size=4).map(tuple),
    st.text('abc', max_size=3),
    st.dictionaries(st.sampled_from(['a', 'b', 0, 1]), prims, max_size=3),
)
nested_containers = st.recursive(
    prims,
    lambda c: st.one_of(st.lists(c, max_size=3),
                        st.lists(c, max_size=3).map(tuple),
                        st.dictionaries(st.sampled_from('abc'), c,
                                        max_size=3)),
    max_leaves=8)


@st.composite
def compatible(draw, n, leaf, max_depth=4, same_depth=False, mismatch=True):
  """n (depth, nested) views whose shapes are prefixes of one another.

  With a small probability one of them gets an incompatible shape.
  """
  d, shape = draw(nested_shape(max_depth))
  out = []
  for i in range(n):
    lf = leaf[i] if isinstance(leaf, (list, tuple)) else leaf
    di = d if same_depth or draw(st.booleans()) else draw(st.integers(0, d))
    out.append((di, fill(truncate(shape, di), di, lf, draw)))
  if mismatch and draw(st.integers(0, 7)) == 0:
    i = draw(st.integers(0, n - 1))
    d2, s2 = draw(nested_shape(max_depth))
    lf = leaf[i] if isinstance(leaf, (list, tuple)) else leaf
    out[i] = (d2, fill(s2, d2, lf, draw))
  return out


class Real:
  """Access to the code under test."""

  def __init__(self):
    import repoenv
    import cxx
    repoenv.use_repo()
    self.clib = cxx.build_view_clib()
    from koladata.ext.view import kv
    from koladata.ext.view import view as view_lib
    self.kv = kv
    self.view_lib = view_lib
    self.present = kv.present

  def view(self, case, cls=tuple):
    """(depth, nested) -> real View via the public API, and its model."""
    depth, nested = case
    nested = subst(nested, self.present)
    v = self.kv.view(nested)
    for _ in range(depth):
      v = v[:]
    m = from_nested(nested, depth)
    d = diff(v, m)
    vp.expect(d is None, f'view(x)[:]...: {d}')
    return v, m


def agree(what, real, model, raises=Exception):
  """Runs both thunks; they must agree on the value or both raise."""
  try:
    want = model()
    merr = None
  except Unspecified:
    return None
  except Exception as e:  # pylint: disable=broad-except
    merr = e
  try:
    got = real()
    rerr = None
  except Exception as e:  # pylint: disable=broad-except
    rerr = e
  if merr is not None:
    vp.expect(rerr is not None,
              f'{what}: expected an error ({type(merr).__name__}: {merr}),'
              f' got {got if rerr is None else None!r}')
    vp.label('both-raise')
    return None
  if rerr is not None:
    raise vp.Violation(
        f'{what}: raised {type(rerr).__name__}: {rerr}\n  expected'
        f' {want.nested() if isinstance(want, MV) else want!r}') from rerr
  if isinstance(want, MV):
    d = diff(got, want)
    vp.expect(d is None, f'{what}: {d}')
  return got, want
