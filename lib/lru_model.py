"""Reference LRU cache with a byte budget (list based, obviously correct)."""


class Lru:

  def __init__(self, limit):
    self.limit = limit
    self.entries = []  # (key, value, size), oldest first

  def copy(self):
    c = Lru(self.limit)
    c.entries = list(self.entries)
    return c

  def total(self):
    return sum(e[2] for e in self.entries)

  def _find(self, key):
    for i, e in enumerate(self.entries):
      if e[0] == key:
        return i
    return None

  def get(self, key, default):
    i = self._find(key)
    if i is None:
      return default
    e = self.entries.pop(i)
    self.entries.append(e)
    return e[1]

  def _evict_to(self, limit):
    evicted = []
    while self.total() > limit:
      evicted.append(self.entries.pop(0))
    return evicted

  def set(self, key, value, size):
    """Returns (value to use, evicted entries)."""
    i = self._find(key)
    if i is not None:
      return self.get(key, None), []
    if size > self.limit:
      return value, []
    evicted = self._evict_to(self.limit - size)
    self.entries.append((key, value, size))
    return value, evicted

  def remove(self, key):
    i = self._find(key)
    if i is not None:
      self.entries.pop(i)

  def set_max(self, limit):
    evicted = self._evict_to(limit)
    self.limit = limit
    return evicted

  def clear(self):
    self.entries = []
