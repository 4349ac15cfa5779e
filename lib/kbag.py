"""Reference model of internal::DataBagImpl."""
import copy


class Bag:
  """Attributes, lists, dicts and schemas of one bag, parents included.

  attrs: (id, name) -> token, 'r' when removed.  lists: id -> [token].
  dicts: id -> {key: token or 'r'}.  schemas: id -> {name: token or 'r'}.
  """

  def __init__(self):
    self.attrs = {}
    self.lists = {}
    self.dicts = {}
    self.schemas = {}

  def fork(self):
    return copy.deepcopy(self)

  def empty(self):
    return not (self.attrs or self.lists or self.dicts or self.schemas)


def get_attr(bags, oid, name, removed=False):
  if oid == '_':
    return '_'
  for b in bags:
    v = b.attrs.get((oid, name))
    if v is not None:
      return v if removed or v != 'r' else '_'
  return '_'


def set_attr(bag, oids, name, values):
  """Of duplicated ids the last present value counts."""
  seen = {}
  for o, v in zip(oids, values):
    if o == '_':
      continue
    if v != '_':
      seen[o] = v
    else:
      seen.setdefault(o, 'r')
  for o, v in seen.items():
    bag.attrs[(o, name)] = v


def get_list(bags, lid):
  """The first list that is set, or None."""
  for b in bags:
    if lid in b.lists:
      return b.lists[lid]
  return None


def get_dict(bags, did):
  """key -> token ('r' removed), the first bag that has the key wins."""
  out = {}
  for b in bags:
    for k, v in b.dicts.get(did, {}).items():
      out.setdefault(k, v)
  return out


def get_schema(bags, sid):
  out = {}
  for b in bags:
    for k, v in b.schemas.get(sid, {}).items():
      out.setdefault(k, v)
  return out


def clamp_range(rng, n):
  """(from, to) of a Python-like slice."""
  a, b, _ = slice(*rng).indices(n)
  return a, b
