"""Reference models of jagged shapes and of operators that move items.

Shapes are those of kcast (a tuple of tuples of group sizes); a slice is its
flat items with a shape.  Operators raise kcast.Bad where they must fail.
"""
from kcast import Bad, broadcast, groups, size


def common_shape(shapes):
  best = max(shapes, key=len)
  for s in shapes:
    if s != best[:len(s)]:
      raise Bad('shapes')
  return best


def valid(edges):
  """The edges form a shape."""
  n = 1
  for e in edges:
    if len(e) != n:
      return False
    n = sum(e)
  return True


def uniform(parents, g):
  if g < 0 or parents < 0:
    raise Bad('negative size')
  return (g,) * parents


def new_shape(dims):
  """Dims are sizes (int) or size lists (tuple)."""
  edges, n = [], 1
  for x in dims:
    e = uniform(n, x) if isinstance(x, int) else x
    if any(v < 0 for v in e):
      raise Bad('negative size')
    edges.append(e)
    n = sum(e)
  if not valid(edges):
    raise Bad('edges')
  return tuple(edges)


def new_with_size(total, dims):
  """Like new_shape; one size may be -1."""
  if dims.count(-1) > 1:
    raise Bad('two placeholders')
  if -1 not in dims:
    shape = new_shape(dims)
  else:
    i = dims.index(-1)
    left = new_shape(dims[:i])
    right, n = [], total
    for x in reversed(dims[i + 1:]):
      if isinstance(x, int):
        if x <= 0:
          raise Bad('size')
        e = uniform(n // x, x)
      else:
        e = x
      right.insert(0, e)
      n = len(e)
    p = size(left)
    if p and n % p:
      raise Bad('does not divide')
    shape = left + (uniform(p, n // p if p else 0),) + tuple(right)
    if not valid(shape):
      raise Bad('edges')
  if size(shape) != total:
    raise Bad('size')
  return shape


def flatten(shape, start, stop):
  """Dimensions [start, stop) as one."""
  rank = len(shape)

  def dim(d):
    return min(max(d + rank if d < 0 else d, 0), rank)

  a = dim(start)
  b = max(rank if stop is None else dim(stop), a)
  if a == b:
    e = (1,) * size(shape[:a])
  else:
    e = None
    for s in shape[a:b]:
      e = s if e is None else tuple(sum(g) for g in groups(s, e))
  return shape[:a] + (e,) + shape[b:]


def offsets(edge):
  out = [0]
  for n in edge:
    out.append(out[-1] + n)
  return out


def subslice(items, shape, args):
  """Args are (items, shape) or ('range', start or None, stop or None)."""
  if len(args) > len(shape):
    raise Bad('too many')
  if not args:
    return items, shape
  at = len(shape) - len(args)
  cshape = shape[:at]
  chosen = list(range(size(cshape)))
  for edge, arg in zip(shape[at:], args):
    off = offsets(edge)
    if arg[0] != 'range':
      vals, vshape = arg
      both = common_shape([cshape, vshape])
      c = broadcast(chosen, cshape, both)
      v = broadcast(vals, vshape, both)
      chosen, cshape = [], both
      for p, i in zip(c, v):
        ok = p is not None and i is not None
        if ok and i < 0:
          i += edge[p]
        chosen.append(off[p] + i if ok and 0 <= i < edge[p] else None)
    else:
      given = [x for x in arg[1:] if x is not None]
      both = common_shape([cshape] + [s for _, s in given])
      c = broadcast(chosen, cshape, both)
      lims = [x if x is None else broadcast(x[0], x[1], both)
              for x in arg[1:]]
      chosen, sizes = [], []
      for k, p in enumerate(c):
        if p is None or any(x is not None and x[k] is None for x in lims):
          sizes.append(0)
          continue
        r = range(edge[p])[slice(*[None if x is None else x[k]
                                   for x in lims])]
        sizes.append(len(r))
        chosen += [off[p] + i for i in r]
      cshape = both + (tuple(sizes),)
  return ['_' if c is None else items[c] for c in chosen], cshape


def expand(items, shape, to, ndim, present=None):
  """The slice with its last ndim dimensions imploded, expanded to a shape."""
  if ndim < 0 or ndim > len(shape):
    raise Bad('ndim')
  keep = shape[:len(shape) - ndim]
  if len(keep) > len(to) or keep != to[:len(keep)]:
    raise Bad('shape')
  if ndim == 0:
    out = broadcast(items, shape, to)
    if present is not None:
      out = [x if p else '_' for x, p in zip(out, present)]
    return out, to
  zeros = [0 if p else None for p in present or [True] * size(to)]
  return subslice(items, shape, [('range', (zeros, to), None)]
                  + [('range', None, None)] * (ndim - 1))


def select(items, shape, mask, mshape):
  """The items (or groups) with a present mask."""
  if not mshape or len(mshape) > len(shape):
    raise Bad('rank')
  if mshape != shape[:len(mshape)]:
    raise Bad('shape')
  k = len(mshape)
  edges = list(shape[:k - 1])
  edges.append(tuple(sum(g) for g in groups([int(m) for m in mask],
                                            shape[k - 1])))
  keep = list(mask)
  for e in shape[k:]:
    edges.append(tuple(n for n, m in zip(e, keep) if m))
    keep = [m for m, n in zip(keep, e) for _ in range(n)]
  return [x for x, m in zip(items, keep) if m], tuple(edges)


def concat(parts, ndim):
  """(items, shape) of the slices joined along the last ndim-th dimension."""
  rank = len(parts[0][1])
  if any(len(s) != rank for _, s in parts) or not 1 <= ndim <= rank:
    raise Bad('rank')
  at = rank - ndim
  if len({s[:at] for _, s in parts}) > 1:
    raise Bad('shape')
  n = size(parts[0][1][:at])
  per = [split(items, shape, at) for items, shape in parts]
  joined = [[c for p in per for c in p[i]] for i in range(n)]
  return unsplit(joined, parts[0][1][:at], rank - at)


def stack(parts, ndim):
  rank = len(parts[0][1])
  if any(len(s) != rank for _, s in parts) or not 0 <= ndim <= rank:
    raise Bad('rank')
  at = rank - ndim
  if len({s[:at] for _, s in parts}) > 1:
    raise Bad('shape')
  n = size(parts[0][1][:at])
  per = [split(items, shape, at) for items, shape in parts]
  joined = [[p[i] for p in per] for i in range(n)]
  return unsplit(joined, parts[0][1][:at], rank - at + 1)


def split(items, shape, at):
  """The nested list of each group of the first `at` dimensions."""
  out = list(items)
  for e in reversed(shape[at:]):
    out = groups(out, e)
  return out


def unsplit(nested, head, depth):
  """Back from nested lists."""
  edges = list(head)
  for _ in range(depth):
    edges.append(tuple(len(x) for x in nested))
    nested = [c for x in nested for c in x]
  return nested, tuple(edges)
