"""C06: the file-system abstraction never loses or clobbers data."""
import fnmatch
import os
import shutil
import stat
import tempfile

import vp
from vp import st, expect, expect_eq
import repoenv

check = vp.Check(
    'C06',
    'Generated histories of open/write/read/append, make_dirs, rename with and'
    ' without overwrite, remove, exists, is_dir and glob inside a scratch'
    ' directory, compared after every step with an in-memory tree (full'
    ' snapshot of the directory, also after failed operations). Non-trivial:'
    ' the history contains a rename whose destination exists or a failing'
    ' operation.',
    ['local POSIX file system, no concurrent writers, no symlinks'],
)
FS = None


@check.setup
def _setup():
  global FS
  repoenv.use_repo()
  from koladata.file_io import file_io
  FS = file_io


NAMES = ['a', 'b', 'cc', 'd e', '.hid', 'a.txt', 'x[1]', 'q?']
path = st.lists(st.sampled_from(NAMES), min_size=1, max_size=3)
sub = st.one_of(st.sampled_from(['a', 'b', 'cc']).map(lambda n: [n]),
                st.tuples(st.sampled_from(['a', 'b']),
                          st.sampled_from(['a', 'b'])).map(list), path)
comp = st.sampled_from(['*', 'a*', '?', '*.txt', 'a', 'b', '[ab]', '[!a]',
                        'cc', '.*', 'x[[]1]', '*e', '[a-c]*'])
text = st.text(alphabet='ab\n\u00e9\u4e2d\U0001f600 ', max_size=6)

op = st.one_of(
    st.tuples(st.just('write'), sub, st.binary(max_size=5),
              st.sampled_from(['wb', 'ab', 'xb', 'wb'])),
    st.tuples(st.just('writet'), sub, text, st.sampled_from(['w', 'a', 'x'])),
    st.tuples(st.just('read'), sub),
    st.tuples(st.just('mkdirs'), sub),
    st.tuples(st.just('mkdirs'), sub),
    st.tuples(st.just('remove'), sub),
    st.tuples(st.just('rename'), sub, sub,
              st.sampled_from([None, False, True, True])),
    st.tuples(st.just('rename'), sub, sub,
              st.sampled_from([None, False, True])),
    st.tuples(st.just('glob'), st.lists(comp, min_size=1, max_size=3)),
)


def snapshot(root):
  out = {}
  for d, dirs, files in os.walk(root):
    for n in dirs:
      p = os.path.join(d, n)
      out[tuple(os.path.relpath(p, root).split(os.sep))] = None
    for n in files:
      p = os.path.join(d, n)
      with open(p, 'rb') as f:
        out[tuple(os.path.relpath(p, root).split(os.sep))] = f.read()
  return out


class Model(dict):
  """path tuple -> bytes (file) or None (directory); root is ()."""

  def is_dir(self, p):
    return p == () or (p in self and self[p] is None)

  def is_file(self, p):
    return p in self and self[p] is not None

  def parent_ok(self, p):
    return self.is_dir(p[:-1])

  def children(self, p):
    return [q for q in self if q[:len(p)] == p and q != p]

  def mkdirs(self, p):
    for i in range(1, len(p) + 1):
      q = p[:i]
      if self.is_file(q):
        return False
    for i in range(1, len(p) + 1):
      self.setdefault(p[:i], None)
    return True

  def move(self, a, b):
    moved = {b + q[len(a):]: v for q, v in self.items()
             if q[:len(a)] == a}
    for q in [q for q in self if q[:len(a)] == a]:
      del self[q]
    self.pop(b, None)
    self.update(moved)

  def glob(self, comps):
    out = []
    for q in self:
      if len(q) != len(comps):
        continue
      ok = all(
          fnmatch.fnmatchcase(n, c) and (not n.startswith('.') or
                                         c.startswith('.'))
          for n, c in zip(q, comps))
      if ok:
        out.append(q)
    return sorted(out)


def attempt(fn):
  try:
    return True, fn()
  except Exception as e:  # pylint: disable=broad-except
    return False, e


@check.clause(lambda: st.lists(op, min_size=1, max_size=30), n=1500,
              thorough=25000)
def tree_model(case):
  root = tempfile.mkdtemp(prefix='vp-fs-')
  try:
    return _tree(root, case)
  finally:
    shutil.rmtree(root, ignore_errors=True)


def _tree(root, case):
  fs = FS.get_default_file_system_interaction()
  m = Model()
  nontrivial = False

  def real(p):
    return os.path.join(root, *p)

  for step, o in enumerate(case):
    k = o[0]
    p = tuple(o[1]) if k != 'glob' else None
    if k in ('write', 'writet'):
      data = o[2] if k == 'write' else o[2].encode('utf-8')
      ok_want = m.parent_ok(p) and not m.is_dir(p) and not (
          'x' in o[3] and p in m)

      def do():
        with fs.open(real(p), o[3]) as f:
          f.write(o[2])

      ok, res = attempt(do)
      if ok_want:
        if 'a' in o[3]:
          m[p] = m.get(p, b'') + data
        else:
          m[p] = data
    elif k == 'read':
      ok_want = m.is_file(p)

      def do():
        with fs.open(real(p), 'rb') as f:
          return f.read()

      ok, res = attempt(do)
      if ok and ok_want:
        expect_eq(res, m[p], 'content read', case=case)
        try:
          txt = m[p].decode('utf-8')
        except UnicodeDecodeError:
          txt = None
        if txt is not None and b'\r' not in m[p]:
          with fs.open(real(p), 'r') as f:
            expect_eq(f.read(), txt, 'text read', case=case)
    elif k == 'mkdirs':
      before = dict(m)
      ok_want = m.mkdirs(p)
      ok, res = attempt(lambda: fs.make_dirs(real(p)))
      if not ok_want:
        m.clear()
        m.update(before)
    elif k == 'remove':
      ok_want = m.is_file(p)
      ok, res = attempt(lambda: fs.remove(real(p)))
      if ok_want:
        del m[p]
    elif k == 'rename':
      a, b, ow = tuple(o[1]), tuple(o[2]), o[3]
      exists = b in m
      kwargs = {} if ow is None else {'overwrite': ow}
      ok, res = attempt(lambda: fs.rename(real(a), real(b), **kwargs))
      # oldpath must exist and newpath's parent must be a directory outside it.
      base = a in m and m.parent_ok(b) and b[:len(a)] != a
      if not ow:
        ok_want = base and not exists
        nontrivial |= exists
      else:
        if not exists:
          ok_want = base
        elif m.is_file(b):
          ok_want = base and m.is_file(a)
          nontrivial = True
        else:
          # Replacing a directory: only an empty one by a directory.
          ok_want = base and m.is_dir(a) and not m.children(b)
        if a == b and a in m:
          ok_want = True
      if ok_want and a != b:
        m.move(a, b)
    elif k == 'glob':
      comps = o[1]
      got = fs.glob(os.path.join(root, *comps))
      want = m.glob(comps)
      expect_eq(sorted(got), sorted(real(q) for q in want), 'glob result',
                pattern=comps, case=case)
      ok = ok_want = True
    if not ok:
      nontrivial = True
    expect(ok == ok_want,
           'operation failed' if ok_want else
           'operation succeeded although it must fail',
           step=step, op=o, error=res if not ok else None, case=case)
    expect_eq(snapshot(root), dict(m), 'directory tree after the operation',
              step=step, op=o, case=case)
    for q in [tuple(x) for x in (['a'], ['b'], ['a', 'b'])] + (
        [p] if p else []):
      expect_eq(bool(fs.exists(real(q))), q in m, 'exists', path=q, case=case)
      expect_eq(bool(fs.is_dir(real(q))), m.is_dir(q), 'is_dir', path=q,
                case=case)
  return nontrivial


@check.clause(
    st.tuples(st.sampled_from([0o000, 0o022, 0o027, 0o007, 0o077, 0o002]),
              st.lists(path, min_size=1, max_size=4)),
    n=300, thorough=3000)
def permissions(case):
  """Every directory made honours the caller's umask; existing ones keep
  their mode; files are created with the umask as well."""
  umask, paths = case
  root = tempfile.mkdtemp(prefix='vp-fs-')
  old = os.umask(umask)
  try:
    fs = FS.get_default_file_system_interaction()
    for p in paths:
      full = os.path.join(root, *p)
      fs.make_dirs(full)
      fs.make_dirs(full)
      q = root
      for n in p:
        q = os.path.join(q, n)
        expect_eq(stat.S_IMODE(os.stat(q).st_mode), 0o777 & ~umask,
                  'directory mode', path=p, case=case)
    return len(paths) > 1
  finally:
    os.umask(old)
    shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
  check.main()
