"""Stand-in for `koladata.kd` as far as the bag-level storage code needs it.

The C++ extension behind the real `kd` cannot be built here.  The code under
test treats a DataBag as an opaque value that can be dumped, loaded and merged;
the stand-in is a map where later updates win, so that merge order and
membership are observable.  `file_io` is the repository's own module.
"""
import json
import sys
import types


class DataBag:

  def __init__(self, content=()):
    self.content = dict(content)

  def get_approx_byte_size(self):
    return 10 + 8 * len(self.content)

  def __eq__(self, other):
    return isinstance(other, DataBag) and self.content == other.content

  def __hash__(self):
    return hash(tuple(sorted(self.content.items())))

  def __repr__(self):
    return f'DataBag({self.content})'

  def __lshift__(self, other):
    return updated(self, other)

  def __rshift__(self, other):
    return updated(other, self)


class DataSlice:
  pass


def updated(*bags):
  out = {}
  for b in bags:
    if not isinstance(b, DataBag):
      raise TypeError(f'not a DataBag: {b!r}')
    out.update(b.content)
  return DataBag(out)


def enriched(*bags):
  return updated(*reversed(bags))


def dump(x, path, /, *, overwrite=False, riegeli_options=None, fs=None):
  from koladata.file_io import file_io
  if fs is None:
    fs = file_io.get_default_file_system_interaction()
  if fs.exists(path):
    if overwrite:
      fs.remove(path)
    else:
      raise ValueError(f'File {path} already exists.')
  with fs.open(path, 'wb') as f:
    f.write(json.dumps(x.content).encode() + b'.')


def load(path, /, *, fs=None):
  from koladata.file_io import file_io
  if fs is None:
    fs = file_io.get_default_file_system_interaction()
  with fs.open(path, 'rb') as f:
    data = f.read()
  if not data.endswith(b'.'):
    raise ValueError(f'truncated bag file {path}')
  return DataBag(json.loads(data[:-1]))


def install():
  """Registers the fake as koladata.kd (the repo must be on sys.path)."""
  import koladata
  from koladata.file_io import file_io, fs_interface
  kd = types.ModuleType('koladata.kd')
  kd.types = types.SimpleNamespace(DataBag=DataBag, DataSlice=DataSlice)
  kd.bags = types.SimpleNamespace(updated=updated, enriched=enriched,
                                  new=lambda: DataBag())
  kd.bag = lambda: DataBag()
  kd.s11n = types.SimpleNamespace(dump=dump, load=load)
  kd.dump, kd.load = dump, load
  kd.file_io = types.SimpleNamespace(
      get_default_file_system_interaction=(
          file_io.get_default_file_system_interaction),
      FileSystemInterface=fs_interface.FileSystemInterface)
  sys.modules['koladata.kd'] = kd
  koladata.kd = kd
  return kd
